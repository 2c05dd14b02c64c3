From d524b8dcc8c61f63eb88741646906a05f54f070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 01/22] fix: reject tokens after an X or Y indexed operand

The operand tree of parser.h ends in null after the index register, but
parse_instr_tree() accepted whatever followed it, so e.g. 'LDA $12,X STA'
was silently assembled as 'STA $12,X'.
---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..e81a67a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From 05dd13d20570b7d0d8510db2d217a47387ee3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 02/22] fix: reject indexed forward-referenced JMP operands

'JMP LABEL,X' with LABEL not yet defined kept ADDR_MODE_ABSOLUTE_X, which
JMP does not have, so the error code of get_opcode() was written to the
binary as an opcode and the assembly was reported as successful.
---
 src/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index e81a67a..1b18064 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -564,7 +564,10 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
 		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		// and with JMP's own bitfield, because ABSOLUTE_FIELD also
+		// contains the register modes which JMP does not have
+		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD &
+		                      instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From dab0caaf1c2f62899f20d5e9fa353905855166fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 03/22] fix: reject branch literals that do not fit in one byte

'BNE $1234' was assembled as 'BNE $34': the literal was silently truncated
to its low byte.
---
 src/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 1b18064..84ab814 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -641,7 +641,10 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		// see comment above in parse_label_operand()
 		// operand value might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		// only a label is turned into an offset later; a literal that
+		// does not fit in 1 byte cannot be the operand of a branch
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From 882fc7a3a110d00da7b68c667c7fed4d54553bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 04/22] fix: do not let huge literals wrap around

The running total of lex_literal() overflowed, so e.g.
$10000000000000001 was accepted with the value 1.
---
 src/lexer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..51cedcf 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -357,8 +357,12 @@ int lex_literal(const char *literal, struct Token *tk)
 	while (*curr) {
 		char_value = (*converter_func)(*curr);
 		if (char_value != ERROR_ILLEGAL_CHAR) {
-			total *= base;
-			total += char_value;
+			// a literal that is too big stays too big, so stop
+			// before total can wrap around
+			if (total <= 0xFFFF) {
+				total *= base;
+				total += char_value;
+			}
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From f0be844155a18513b21505d091fe6e2c53b6fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 05/22] fix: report lines with too many tokens

lex_line() leaves it to the parser to print the error of a line with more
than 8 tokens, but main() aborted before it called the parser, so the
assembly failed without any message.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..a053340 100644
--- a/src/main.c
+++ b/src/main.c
@@ -187,7 +187,9 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
-		if (IS_ERROR(return_code))
+		// with too many tokens, the parser pinpoints the first bad one
+		if (IS_ERROR(return_code) &&
+		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
 		return_code = parse_line(lexer);
-- 
2.43.0


From cc9132a0868fa5c292eee813e744c4a99ffab181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/22] fix: write the dummy bytes of a forward reference at
 its location

They were written wherever the previous instruction had left the file
position. After an .ORG or *= that is not the location of the instruction:
the dummy bytes overwrote code of another segment, or made the binary
longer than the program.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index a053340..877d90e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -236,6 +236,7 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 
 			// write dummy bytes
+			fseek(outf, pc, SEEK_SET);
 			fputc(0x00, outf);
 			fputc(0x00, outf);
 			if (written_bytes == 3)
-- 
2.43.0


From f9455c5f0463edc4c064c54aeb63abd1096720dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 07/22] fix: read source lines of any length

A line of more than 127 characters was split, and the rest of it was
assembled as a line of its own: the end of a long comment became code, and
the following line numbers were wrong.
---
 src/main.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 877d90e..c842536 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,9 @@ The Gaia assembler for 6502 Assembly.
 
 */
 
+// getline()
+#define _POSIX_C_SOURCE 200809L
+
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -92,6 +95,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
+		free(buffer);                                                \
 		return EXIT_FAILURE;                                         \
 	} while (0)
 
@@ -103,8 +107,6 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
-
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -151,6 +153,8 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	char *buffer = NULL;  // allocated by getline()
+	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -175,7 +179,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -185,7 +188,7 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// with too many tokens, the parser pinpoints the first bad one
 		if (IS_ERROR(return_code) &&
@@ -290,5 +293,6 @@ int main(int argc, char *argv[])
 	destroy_instruction(instr);
 	destroy_symbol_table(symtab);
 	destroy_unresolved(unresolved);
+	free(buffer);
 	return 0;
 }
-- 
2.43.0


From 7964307c2e54cf18772fbb29b7d2661ff55128b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 08/22] fix: report source files that cannot be read

A read error, e.g. because the source is a directory, was taken for the
end of the file and the assembly was reported as successful.
---
 src/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c842536..c96f9b4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -183,7 +183,7 @@ int main(int argc, char *argv[])
 	int return_code;
 	int pc = 0x0;
 	struct Token *operand;
-	struct Token *first;
+	struct Token *first = NULL;
 	int operand_status;
 	int written_bytes = 0;
 	struct ForwardRef *ref;
@@ -265,6 +265,13 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	// neither the end of the file nor an .END was reached
+	if (!feof(inf) && !(first && first->type == TOKEN_END_DIRECTIVE)) {
+		print_error(NULL, ERROR_FILE_OPEN_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
-- 
2.43.0


From be21f97f414d94f831461e13e69aabb540e9dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 09/22] fix: report binary files that cannot be written

Write errors, e.g. on a full disk, were ignored and the assembly was
reported as successful.
---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index c96f9b4..e7e5862 100644
--- a/src/main.c
+++ b/src/main.c
@@ -289,6 +289,13 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// all the bytes must have made it into the binary file
+	if (fflush(outf) || ferror(outf)) {
+		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
-- 
2.43.0


From 17660cbfbd8747bb190862220ac6a02081ab0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 10/22] fix: report memory allocation failures during assembly

When a symbol or a forward reference could not be allocated, the assembly
failed without any message.
---
 src/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index e7e5862..86a1608 100644
--- a/src/main.c
+++ b/src/main.c
@@ -203,6 +203,9 @@ int main(int argc, char *argv[])
 		if (first->type == TOKEN_LABEL ||
 		    first->type == TOKEN_DEFINE_DIRECTIVE) {
 			return_code = parse_label_declaration(lexer, symtab, pc);
+			if (return_code == ERROR_MEMORY_ALLOCATION_FAIL)
+				print_error(NULL, return_code, NULL,
+				            args.src_file, -1);
 			if (IS_ERROR(return_code))
 				ABORT_ASSEMBLY();
 		} else if (first->type == TOKEN_BASE ||
@@ -233,10 +236,12 @@ int main(int argc, char *argv[])
 			ref = create_forward_ref(buffer, instr, operand,
 			                         operand_status, pc,
 			                         line_num);
-			if (!ref)
-				ABORT_ASSEMBLY();
-			if (IS_ERROR(add_forward_ref(unresolved, ref)))
+			if (!ref ||
+			    IS_ERROR(add_forward_ref(unresolved, ref))) {
+				print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL,
+				            NULL, args.src_file, -1);
 				ABORT_ASSEMBLY();
+			}
 
 			// write dummy bytes
 			fseek(outf, pc, SEEK_SET);
-- 
2.43.0


From 46b2f7073f166fdc6595289032d70b14f7346722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 11/22] fix: report binary files whose last bytes fail at
 closing

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 86a1608..d7cfe94 100644
--- a/src/main.c
+++ b/src/main.c
@@ -295,7 +295,11 @@ int main(int argc, char *argv[])
 	}
 
 	// all the bytes must have made it into the binary file
-	if (fflush(outf) || ferror(outf)) {
+	int write_failed = ferror(outf);
+	if (fclose(outf))
+		write_failed = 1;
+	outf = NULL;
+	if (write_failed) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
 		ABORT_ASSEMBLY();
@@ -306,7 +310,6 @@ int main(int argc, char *argv[])
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 1d78e273f677bf98eb7e96cf70e6c085604cfd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 12/22] fix: report source lines cut short by a read error

---
 src/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index d7cfe94..64e1bce 100644
--- a/src/main.c
+++ b/src/main.c
@@ -270,8 +270,9 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
-	// neither the end of the file nor an .END was reached
-	if (!feof(inf) && !(first && first->type == TOKEN_END_DIRECTIVE)) {
+	// a part was unreadable, or the end of the file or .END not reached
+	if (ferror(inf) ||
+	    (!feof(inf) && !(first && first->type == TOKEN_END_DIRECTIVE))) {
 		print_error(NULL, ERROR_FILE_OPEN_FAIL, NULL, args.src_file,
 		            -1);
 		ABORT_ASSEMBLY();
-- 
2.43.0


From 975e8408a12bb496843daf65b4de37204dc9cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 13/22] fix: terminate the array of command line options

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 64e1bce..7d2ccb0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -27,7 +27,8 @@ static char *doc = "Gaia assembles a 6502 source code file into a binary file.";
 // array of cmdline options
 static struct argp_option options[] = {
 	{"output", 'o', "FILE", 0, "Place assembled binary into <FILE>", 0},
-	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0}
+	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0},
+	{0}
 };
 
 // struct used as storage for arg_parse()
-- 
2.43.0


From 71916aa3627db11611d404da6d61094811cc7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 14/22] fix: reject operands that name an address beyond $FFFF

---
 src/generator.c | 6 ++++++
 src/parser.c    | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/generator.c b/src/generator.c
index c4ffdc4..1edb9ba 100644
--- a/src/generator.c
+++ b/src/generator.c
@@ -174,6 +174,12 @@ int resolve_forward_ref(FILE *f, struct ForwardRef *ref, struct Lexer *lexer,
 		            lexer->file_name, lexer->line_num);
 		return ERROR_ILLEGAL_ADDRESSING_MODE;
 	} else if (ref->operand_status == JUMP_FORWARD_REFERENCE) {
+		if (dest_pc > 0xFFFF) {
+			print_error(ref->source_line, ERROR_TOO_BIG_LITERAL,
+			            ref->operand_location, lexer->file_name,
+			            ref->line_num);
+			return ERROR_TOO_BIG_LITERAL;
+		}
 		if (instr->addr_bitflag) {
 			instr->opcode = get_opcode(instr);
 			fseek(f, ref->pc, SEEK_SET);
diff --git a/src/parser.c b/src/parser.c
index 84ab814..7c1f62d 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -385,6 +385,15 @@ int parse_label_operand(struct Lexer *lexer, struct Instruction *instr,
 	int jump = is_jump(instr->mnemonic);
 
 	if (label_value != ERROR_SYMBOL_NOT_FOUND) {
+		// a label behind the end of memory has no 2 byte address; only
+		// a branch can still reach it
+		if (label_value > 0xFFFF && !branch) {
+			lexer->error_tk = operand;
+			print_error(lexer->line, ERROR_TOO_BIG_LITERAL,
+			            lexer->error_tk->buffer_location,
+			            lexer->file_name, lexer->line_num);
+			return ERROR_TOO_BIG_LITERAL;
+		}
 		// save value in both symtab and sequence token
 		// allows for faster lookup when we parse the addressing mode
 		operand->value = label_value;
-- 
2.43.0


From ed7dc6998b73ec6a9bbf51ccfcdda42cd422e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 15/22] fix: keep the load factor of large symbol tables from
 overflowing

---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..de17515 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -167,7 +167,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	long load = ((symtab->count + 1) * 100L) / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0


From e6a456ae1dec1aeb23003637b85ed0308260046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 16/22] fix: do not let the length of huge literals overflow

---
 src/lexer.c | 8 ++++----
 src/lexer.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 51cedcf..3244196 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -322,7 +322,7 @@ static int is_end_of_token(const char c)
 	Lexically analyze a literal token and update @tk to hold the literal's
 	information.
 */
-int lex_literal(const char *literal, struct Token *tk)
+long lex_literal(const char *literal, struct Token *tk)
 {
 	// array of ptrs to converter function
 	int (*converters[])(char) = {hex_digit_to_int, bin_digit_to_int,
@@ -332,7 +332,7 @@ int lex_literal(const char *literal, struct Token *tk)
 
 	const char *curr = literal;
 	int base;
-	int num_chars = 0;
+	long num_chars = 0;
 	if (*curr == '$') {
 		base = 16;
 		converter_func = converters[0];
@@ -553,7 +553,7 @@ int lex_text(const char *buffer, struct Token *tk, struct Instruction *instr)
 	that token's meaning. @instr may also be updated if @tk is an
 	instruction token.
 */
-int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
+long lex(const char *buffer, struct Token *tk, struct Instruction *instr)
 {
 	char c = buffer[0];
 	tk->buffer_location = buffer;
@@ -647,7 +647,7 @@ int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
 		curr++;
 
 	// tokenize and perform lexical analysis on every token
-	int num_chars;
+	long num_chars;
 	while (!end_line_lexing(*curr)) {
 		num_chars = lex(curr, tk, instr);
 
diff --git a/src/lexer.h b/src/lexer.h
index 0a859be..ad504a0 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -65,11 +65,11 @@ void destroy_lexer(struct Lexer *lexer);
 
 int add_token(struct Lexer *lexer, const struct Token *tk);
 
-int lex_literal(const char *literal, struct Token *tk);
+long lex_literal(const char *literal, struct Token *tk);
 int lex_instruction(struct Token *tk, struct Instruction *instr);
 int lex_directive(const char *buffer, struct Token *tk);
 int lex_text(const char *buffer, struct Token *tk, struct Instruction *instr);
-int lex(const char *buffer, struct Token *tk, struct Instruction *instr);
+long lex(const char *buffer, struct Token *tk, struct Instruction *instr);
 int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
              struct Instruction *instr, int line_num);
 
-- 
2.43.0


From 195383dbe8c5b4419a4b9f7f08e9642450596ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 17/22] fix: point at errors behind more than 2 GiB of text

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..d23c07e 100644
--- a/src/error.c
+++ b/src/error.c
@@ -108,7 +108,7 @@ void print_error(const char *line, int error_code, const char *bad_char,
 		return;
 	}
 
-	int num_spaces = 0;
+	long num_spaces = 0;
 	int tab_align = 0;
 	for (const char *tmp = line; tmp != bad_char; tmp++) {
 		if (tab_align == 8)
@@ -124,7 +124,7 @@ void print_error(const char *line, int error_code, const char *bad_char,
 		}
 	}
 
-	for (int i = 0; i < num_spaces; i++)
+	for (long i = 0; i < num_spaces; i++)
 		putchar(' ');
 	printf("^~~~~~\n\n");
 }
-- 
2.43.0


From 51a04c22b02d09597ea9a54ffefa7d54f7915830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 18/22] fix: count more than 2^31 - 1 source lines

---
 src/error.c             | 4 ++--
 src/error.h             | 2 +-
 src/forward_reference.c | 3 ++-
 src/forward_reference.h | 5 +++--
 src/lexer.c             | 2 +-
 src/lexer.h             | 4 ++--
 src/main.c              | 2 +-
 7 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/error.c b/src/error.c
index d23c07e..14359d4 100644
--- a/src/error.c
+++ b/src/error.c
@@ -31,10 +31,10 @@ printed, which is aligned to the error in the source line.
 		ERROR_TOO_BIG_OFFSET
 */
 void print_error(const char *line, int error_code, const char *bad_char,
-                 const char *file_name, int line_num)
+                 const char *file_name, long line_num)
 {
 	if (line)
-		printf("%s:%d: ", file_name, line_num);
+		printf("%s:%ld: ", file_name, line_num);
 
 	switch (error_code) {
 	case ERROR_MEMORY_ALLOCATION_FAIL:
diff --git a/src/error.h b/src/error.h
index 6fe0355..f8f7153 100644
--- a/src/error.h
+++ b/src/error.h
@@ -44,6 +44,6 @@ Error codes used by the assembler. Also a prototype to print error messages.
 */
 
 void print_error(const char *line, int error_code, const char *bad_char,
-                 const char *file_name, int line_num);
+                 const char *file_name, long line_num);
 
 #endif
\ No newline at end of file
diff --git a/src/forward_reference.c b/src/forward_reference.c
index 398d4ec..a21b546 100644
--- a/src/forward_reference.c
+++ b/src/forward_reference.c
@@ -98,7 +98,8 @@ void destroy_unresolved(struct Unresolved *unresolved)
 struct ForwardRef *create_forward_ref(const char *buffer,
                                       const struct Instruction *instr,
                                       const struct Token *operand,
-                                      int operand_status, int pc, int line_num)
+                                      int operand_status, int pc,
+                                      long line_num)
 {
 	struct ForwardRef *ref = malloc(sizeof(struct ForwardRef));
 	if (!ref)
diff --git a/src/forward_reference.h b/src/forward_reference.h
index a8617c0..c589805 100644
--- a/src/forward_reference.h
+++ b/src/forward_reference.h
@@ -19,7 +19,7 @@ struct ForwardRef {
 	struct Instruction *instr;     // the instruction of the line
 	int pc;                        // location of instruction's opcode in the
 	                               // assembled binary file
-	int line_num;
+	long line_num;
 	int operand_status;            // whether instr is branch or jump
 	const char *operand_location;  // location of operand in source_line
 };
@@ -36,7 +36,8 @@ void destroy_unresolved(struct Unresolved *unresolved);
 struct ForwardRef *create_forward_ref(const char *buffer,
                                       const struct Instruction *instr,
                                       const struct Token *operand,
-                                      int operand_status, int pc, int line_num);
+                                      int operand_status, int pc,
+                                      long line_num);
 int add_forward_ref(struct Unresolved *unresolved, struct ForwardRef *ref);
 
 #endif
\ No newline at end of file
diff --git a/src/lexer.c b/src/lexer.c
index 3244196..8a77a0c 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -632,7 +632,7 @@ static int end_line_lexing(char c)
 	wiped before proceeding to the lexical analysis.
 */
 int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
-             struct Instruction *instr, int line_num)
+             struct Instruction *instr, long line_num)
 {
 	reset_lexer(lexer);
 	reset_instruction(instr);
diff --git a/src/lexer.h b/src/lexer.h
index ad504a0..cedb810 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -50,7 +50,7 @@ struct Lexer {
 	struct Token *error_tk;  // ptr to token with syntax error, only
 	                         // determined by parser.c
 	const char *line;        // ptr to original source line of code
-	int line_num;
+	long line_num;
 	const char *file_name;
 };
 
@@ -71,6 +71,6 @@ int lex_directive(const char *buffer, struct Token *tk);
 int lex_text(const char *buffer, struct Token *tk, struct Instruction *instr);
 long lex(const char *buffer, struct Token *tk, struct Instruction *instr);
 int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
-             struct Instruction *instr, int line_num);
+             struct Instruction *instr, long line_num);
 
 #endif
\ No newline at end of file
diff --git a/src/main.c b/src/main.c
index 7d2ccb0..b212393 100644
--- a/src/main.c
+++ b/src/main.c
@@ -180,7 +180,7 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	int line_num = 1;
+	long line_num = 1;
 	int return_code;
 	int pc = 0x0;
 	struct Token *operand;
-- 
2.43.0


From 7f388e53850482c730925a261b56f960b4252869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 19/22] fix: count more than 2^31 - 1 assembled bytes

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index b212393..5074ca8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -188,7 +188,7 @@ int main(int argc, char *argv[])
 	int operand_status;
 	int written_bytes = 0;
 	struct ForwardRef *ref;
-	int total_bytes = 0;
+	long total_bytes = 0;
 	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// with too many tokens, the parser pinpoints the first bad one
@@ -308,7 +308,7 @@ int main(int argc, char *argv[])
 	}
 
 	printf("Assembly successful.\n");
-	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
+	printf("%li (0x%04lx) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-- 
2.43.0


From 37c93e2b604c6c9f93836861382f3b72fd7d00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 20/22] fix: reject lines that go on behind a carriage return
 or EOF character

---
 src/lexer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lexer.c b/src/lexer.c
index 8a77a0c..072abe7 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -683,6 +683,14 @@ int lex_line(const char *buffer, struct Lexer *lexer, struct Token *tk,
 			curr++;
 	}
 
+	// only the end of the line may follow its last character
+	if ((*curr == '\r' || *curr == EOF) && curr[1] != '\n' &&
+	    curr[1] != '\0') {
+		print_error(buffer, ERROR_ILLEGAL_CHAR, curr,
+		            lexer->file_name, lexer->line_num);
+		return ERROR_ILLEGAL_CHAR;
+	}
+
 	// fill the rest of lexer's sequence with null tokens
 	int curr_token = lexer->curr;
 	while (curr_token < MAX_TOKENS) {
-- 
2.43.0


From 30f214cd1f7c7201c6a79093b58366eb892617e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 21/22] fix: reject lines that go on behind a null character

---
 src/error.c |  7 ++++---
 src/main.c  | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index 14359d4..023b645 100644
--- a/src/error.c
+++ b/src/error.c
@@ -96,10 +96,11 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	}
 
 	// skip trailing whitespace
-	const char *end = line + strlen(line) - 1;
-	while (*end == ' ' || *end == '\t' || *end == '\n' || *end == EOF)
+	const char *end = line + strlen(line);
+	while (end > line && (end[-1] == ' ' || end[-1] == '\t' ||
+	                      end[-1] == '\n' || end[-1] == EOF))
 		end--;
-	for (const char *start = line; start <= end; start++)
+	for (const char *start = line; start < end; start++)
 		putchar(*start);
 	putchar('\n');
 
diff --git a/src/main.c b/src/main.c
index 5074ca8..ac2283b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -10,6 +10,7 @@ The Gaia assembler for 6502 Assembly.
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "forward_reference.h"
@@ -189,13 +190,24 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	long total_bytes = 0;
-	while (getline(&buffer, &buffer_size, inf) != -1) {
+	ssize_t line_length;
+	while ((line_length = getline(&buffer, &buffer_size, inf)) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// with too many tokens, the parser pinpoints the first bad one
 		if (IS_ERROR(return_code) &&
 		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
+		// a null character hides the rest of the line from the lexer,
+		// which is fine in comments only
+		if (!IS_ERROR(return_code) && !strchr(buffer, ';') &&
+		    strlen(buffer) < (size_t)line_length) {
+			print_error(buffer, ERROR_ILLEGAL_CHAR,
+			            buffer + strlen(buffer), args.src_file,
+			            line_num);
+			ABORT_ASSEMBLY();
+		}
+
 		return_code = parse_line(lexer);
 		if (IS_ERROR(return_code))
 			ABORT_ASSEMBLY();
-- 
2.43.0


From 2f1c8fc29f29beafb707a6b16c1ea7da0f8fad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 22/22] fix: write the complete image to outputs that cannot
 seek

Code, dummy bytes and resolved references are placed with fseek(), whose
failure on pipes and terminals went unnoticed: the bytes came out in the
order they were written, without gaps, and success was claimed.
---
 src/main.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/main.c b/src/main.c
index ac2283b..aa48480 100644
--- a/src/main.c
+++ b/src/main.c
@@ -97,6 +97,8 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
+		if (streamf)                                                 \
+			fclose(streamf);                                     \
 		free(buffer);                                                \
 		return EXIT_FAILURE;                                         \
 	} while (0)
@@ -144,6 +146,26 @@ int abort_gaia(FILE *inf, FILE *outf, struct Lexer *lexer, struct Token *tk,
 	return EXIT_FAILURE;
 }
 
+/* copy_file()
+	@from           file to copy, open for reading and writing
+	@to             file to copy to, at its current position
+
+	@return         0 if success, EOF if fail
+
+	Copy all of @from to @to.
+*/
+static int copy_file(FILE *from, FILE *to)
+{
+	int c;
+	if (fseek(from, 0L, SEEK_SET))
+		return EOF;
+	while ((c = getc(from)) != EOF) {
+		if (putc(c, to) == EOF)
+			return EOF;
+	}
+	return ferror(from) ? EOF : 0;
+}
+
 int main(int argc, char *argv[])
 {
 	struct Arguments args = {.src_file = NULL, .out_file = "a.out"};//,
@@ -155,6 +177,7 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	FILE *streamf = NULL;  // output that cannot seek, such as a pipe
 	char *buffer = NULL;  // allocated by getline()
 	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
@@ -181,6 +204,18 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
+	// the code of a line goes to its location, so an output that cannot
+	// seek gets a copy of the complete binary file
+	if (fseek(outf, 0L, SEEK_SET)) {
+		streamf = outf;
+		outf = tmpfile();
+		if (!outf) {
+			print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
+			            args.src_file, -1);
+			ABORT_ASSEMBLY();
+		}
+	}
+
 	long line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -310,6 +345,13 @@ int main(int argc, char *argv[])
 
 	// all the bytes must have made it into the binary file
 	int write_failed = ferror(outf);
+	if (streamf) {
+		if (copy_file(outf, streamf))
+			write_failed = 1;
+		if (fclose(streamf))
+			write_failed = 1;
+		streamf = NULL;
+	}
 	if (fclose(outf))
 		write_failed = 1;
 	outf = NULL;
-- 
2.43.0

