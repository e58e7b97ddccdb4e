From cd5945a345d89b0636d692282ca18f4205267a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 01/48] fix: v6 lexer: only quoted strings shaped as a date or
 RFC 3339 timestamp are date literals

A quoted string was taken as a timestamp when it contained 'T' and 'Z' or '+'
anywhere (for example 'The Zoo'), as a date when it was 10 bytes long with two
dashes, and a timestamp with a negative offset was not recognized.
---
 v6/pkg/parser/tsl_lexer.l |  33 ++++++++-
 v6/pkg/tsl/lex.yy.c       | 145 ++++++++++++++++++++++----------------
 2 files changed, 116 insertions(+), 62 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..c7db44a 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -16,12 +16,39 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
-/* Check if string is a date/time format and return appropriate token */
+/* Match s against a shape where '0' stands for any digit, return the rest of s or NULL */
+static char *match_shape(char *s, const char *shape) {
+    for (; *shape; s++, shape++) {
+        if (*shape == '0' ? (*s < '0' || *s > '9') : *s != *shape) return NULL;
+    }
+    return s;
+}
+
+/* Check if string is a date/time format and return appropriate token.
+   The accepted forms are the DATE and RFC3339 patterns below. */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    char *rest = match_shape(s, "0000-00-00");
+    if (!rest) return 0;
+    if (*rest == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    }
+
+    rest = match_shape(rest, "T00:00:00");
+    if (!rest) return 0;
+    if (match_shape(rest, ".0")) {
+        rest++;
+        while (*rest >= '0' && *rest <= '9') rest++;
+    }
+    if (*rest == 'Z') {
+        rest++;
+    } else {
+        char *offset = match_shape(rest, "+00:00");
+        if (!offset) offset = match_shape(rest, "-00:00");
+        if (!offset) return 0;
+        rest = offset;
+    }
+    if (*rest == '\0') {
         yylval.str = s;
         return RFC3339;
     }
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..f535219 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1,6 +1,6 @@
-#line 1 "../tsl/lex.yy.c"
+#line 2 "../tsl/lex.yy.c"
 
-#line 3 "../tsl/lex.yy.c"
+#line 4 "../tsl/lex.yy.c"
 
 #define  YY_INT_ALIGNED short int
 
@@ -585,12 +585,39 @@ extern int error_pos;
     error_pos = yycolumn; \
     yycolumn += yyleng;
 
-/* Check if string is a date/time format and return appropriate token */
+/* Match s against a shape where '0' stands for any digit, return the rest of s or NULL */
+static char *match_shape(char *s, const char *shape) {
+    for (; *shape; s++, shape++) {
+        if (*shape == '0' ? (*s < '0' || *s > '9') : *s != *shape) return NULL;
+    }
+    return s;
+}
+
+/* Check if string is a date/time format and return appropriate token.
+   The accepted forms are the DATE and RFC3339 patterns below. */
 int check_date_formats(char *s) {
-    if (strlen(s) == 10 && s[4] == '-' && s[7] == '-') {
+    char *rest = match_shape(s, "0000-00-00");
+    if (!rest) return 0;
+    if (*rest == '\0') {
         yylval.str = s;
         return DATE;
-    } else if (strstr(s, "T") && (strstr(s, "Z") || strstr(s, "+"))) {
+    }
+
+    rest = match_shape(rest, "T00:00:00");
+    if (!rest) return 0;
+    if (match_shape(rest, ".0")) {
+        rest++;
+        while (*rest >= '0' && *rest <= '9') rest++;
+    }
+    if (*rest == 'Z') {
+        rest++;
+    } else {
+        char *offset = match_shape(rest, "+00:00");
+        if (!offset) offset = match_shape(rest, "-00:00");
+        if (!offset) return 0;
+        rest = offset;
+    }
+    if (*rest == '\0') {
         yylval.str = s;
         return RFC3339;
     }
@@ -636,13 +663,13 @@ char* strip_quotes(char* text, int offset) {
     free(raw);
     return processed;
 }
-#line 639 "../tsl/lex.yy.c"
+#line 667 "../tsl/lex.yy.c"
 /* Basic building blocks */
 /* Date and time components */
 /* Identifier patterns */
 /* Numeric patterns */
 #define YY_NO_INPUT 1
-#line 645 "../tsl/lex.yy.c"
+#line 673 "../tsl/lex.yy.c"
 
 #define INITIAL 0
 
@@ -857,12 +884,12 @@ YY_DECL
 		}
 
 	{
-#line 108 "tsl_lexer.l"
+#line 135 "tsl_lexer.l"
 
 
-#line 111 "tsl_lexer.l"
+#line 138 "tsl_lexer.l"
     /* Keywords (case-insensitive) */
-#line 865 "../tsl/lex.yy.c"
+#line 893 "../tsl/lex.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -921,157 +948,157 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 112 "tsl_lexer.l"
+#line 139 "tsl_lexer.l"
 { return K_LIKE; }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 113 "tsl_lexer.l"
+#line 140 "tsl_lexer.l"
 { return K_ILIKE; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 114 "tsl_lexer.l"
+#line 141 "tsl_lexer.l"
 { return K_AND; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 115 "tsl_lexer.l"
+#line 142 "tsl_lexer.l"
 { return K_OR; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "tsl_lexer.l"
+#line 143 "tsl_lexer.l"
 { return K_BETWEEN; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "tsl_lexer.l"
+#line 144 "tsl_lexer.l"
 { return K_IN; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "tsl_lexer.l"
+#line 145 "tsl_lexer.l"
 { return K_IS; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "tsl_lexer.l"
+#line 146 "tsl_lexer.l"
 { return K_NULL; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "tsl_lexer.l"
+#line 147 "tsl_lexer.l"
 { return K_NOT; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "tsl_lexer.l"
+#line 148 "tsl_lexer.l"
 { return K_TRUE; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "tsl_lexer.l"
+#line 149 "tsl_lexer.l"
 { return K_FALSE; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "tsl_lexer.l"
+#line 150 "tsl_lexer.l"
 { return K_LEN; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "tsl_lexer.l"
+#line 151 "tsl_lexer.l"
 { return K_ANY; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 125 "tsl_lexer.l"
+#line 152 "tsl_lexer.l"
 { return K_ALL; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 126 "tsl_lexer.l"
+#line 153 "tsl_lexer.l"
 { return K_SUM; }
 	YY_BREAK
 /* Comparison operators */
 case 16:
 YY_RULE_SETUP
-#line 129 "tsl_lexer.l"
+#line 156 "tsl_lexer.l"
 { return LE; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 130 "tsl_lexer.l"
+#line 157 "tsl_lexer.l"
 { return LT; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 131 "tsl_lexer.l"
+#line 158 "tsl_lexer.l"
 { return GE; }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 132 "tsl_lexer.l"
+#line 159 "tsl_lexer.l"
 { return GT; }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 133 "tsl_lexer.l"
+#line 160 "tsl_lexer.l"
 { return NE; }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 134 "tsl_lexer.l"
+#line 161 "tsl_lexer.l"
 { return EQ; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 135 "tsl_lexer.l"
+#line 162 "tsl_lexer.l"
 { return REQ; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 136 "tsl_lexer.l"
+#line 163 "tsl_lexer.l"
 { return RNE; }
 	YY_BREAK
 /* Date and time literals */
 case 24:
 YY_RULE_SETUP
-#line 139 "tsl_lexer.l"
+#line 166 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return RFC3339; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 140 "tsl_lexer.l"
+#line 167 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return DATE; }
 	YY_BREAK
 /* Numeric literals */
 case 26:
 YY_RULE_SETUP
-#line 143 "tsl_lexer.l"
+#line 170 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 144 "tsl_lexer.l"
+#line 171 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 145 "tsl_lexer.l"
+#line 172 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 146 "tsl_lexer.l"
+#line 173 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 /* String literals and identifiers */
 case 30:
 /* rule 30 can match eol */
 YY_RULE_SETUP
-#line 149 "tsl_lexer.l"
+#line 176 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1083,7 +1110,7 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-#line 157 "tsl_lexer.l"
+#line 184 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1095,7 +1122,7 @@ YY_RULE_SETUP
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-#line 165 "tsl_lexer.l"
+#line 192 "tsl_lexer.l"
 {
                             char *s = strip_quotes(yytext, 1);
                             int token = check_date_formats(s);
@@ -1106,77 +1133,77 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 173 "tsl_lexer.l"
+#line 200 "tsl_lexer.l"
 { yylval.str = strdup(yytext); return IDENTIFIER; }
 	YY_BREAK
 /* Operators and delimiters */
 case 34:
 YY_RULE_SETUP
-#line 176 "tsl_lexer.l"
+#line 203 "tsl_lexer.l"
 { return LPAREN; }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 177 "tsl_lexer.l"
+#line 204 "tsl_lexer.l"
 { return RPAREN; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 178 "tsl_lexer.l"
+#line 205 "tsl_lexer.l"
 { return COMMA; }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 179 "tsl_lexer.l"
+#line 206 "tsl_lexer.l"
 { return PLUS; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 180 "tsl_lexer.l"
+#line 207 "tsl_lexer.l"
 { return MINUS; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 181 "tsl_lexer.l"
+#line 208 "tsl_lexer.l"
 { return STAR; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 182 "tsl_lexer.l"
+#line 209 "tsl_lexer.l"
 { return SLASH; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 183 "tsl_lexer.l"
+#line 210 "tsl_lexer.l"
 { return PERCENT; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 184 "tsl_lexer.l"
+#line 211 "tsl_lexer.l"
 { return LBRACKET; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 185 "tsl_lexer.l"
+#line 212 "tsl_lexer.l"
 { return RBRACKET; }
 	YY_BREAK
 /* Whitespace handling */
 case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
-#line 188 "tsl_lexer.l"
+#line 215 "tsl_lexer.l"
 { yycolumn = 1; /* Reset column on newline */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
 YY_RULE_SETUP
-#line 189 "tsl_lexer.l"
+#line 216 "tsl_lexer.l"
 { /* Track column for whitespace */ }
 	YY_BREAK
 /* Error handling */
 case 46:
 YY_RULE_SETUP
-#line 192 "tsl_lexer.l"
+#line 219 "tsl_lexer.l"
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
@@ -1185,10 +1212,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 198 "tsl_lexer.l"
+#line 225 "tsl_lexer.l"
 ECHO;
 	YY_BREAK
-#line 1191 "../tsl/lex.yy.c"
+#line 1219 "../tsl/lex.yy.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2156,6 +2183,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 198 "tsl_lexer.l"
+#line 225 "tsl_lexer.l"
 
 
-- 
2.43.0


From 781675c3fd4058bc24e6894e720848f7f58d1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 02/48] fix: v6 lexer: a character that starts no token is a
 syntax error, not the end of input

The lexer returned -1 for it, which the parser reads as the end of the input:
everything after the character was ignored and 'a = 1 @ garbage' or a query
with an unterminated string at its end was accepted.
---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index c7db44a..40d2721 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -218,7 +218,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* a syntax error, not the end of input */
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index f535219..3680233 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1207,7 +1207,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; /* a syntax error, not the end of input */
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 9e29c05d473145554d5457923f9664c7eb2cc429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 03/48] fix: v6 parser: report error positions as offsets into
 the input

The column restarted at 1 after a newline, so the position and context of an
error on a later line pointed at the wrong text; it was -1 for empty input or
when a newline came last, and SyntaxError.Error() then panicked.
---
 v6/pkg/parser/tsl_lexer.l   | 2 +-
 v6/pkg/parser/tsl_parser.y  | 3 ++-
 v6/pkg/tsl/lex.yy.c         | 2 +-
 v6/pkg/tsl/tsl_parser.tab.c | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 40d2721..6b3991f 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -211,7 +211,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 "]"                        { return RBRACKET; }
 
     /* Whitespace handling */
-\r?\n                     { yycolumn = 1; /* Reset column on newline */ }
+\r?\n                     { /* Positions are offsets into the whole input */ }
 [ \t\r\n\f\v]+            { /* Track column for whitespace */ }
 
     /* Error handling */
diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..0da0a46 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -254,7 +254,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // yycolumn is 1-based and past the token; empty input has no token
+    set_error_position(yycolumn > 1 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 3680233..346c36b 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1192,7 +1192,7 @@ case 44:
 /* rule 44 can match eol */
 YY_RULE_SETUP
 #line 215 "tsl_lexer.l"
-{ yycolumn = 1; /* Reset column on newline */ }
+{ /* Positions are offsets into the whole input */ }
 	YY_BREAK
 case 45:
 /* rule 45 can match eol */
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..ca82b8f 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1779,7 +1779,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    // yycolumn is 1-based and past the token; empty input has no token
+    set_error_position(yycolumn > 1 ? yycolumn - 2 : 0);
     if (error_string) {
         free(error_string);
     }
-- 
2.43.0


From e2fa61a6a9bf0c68772273e1f257cdcab62c45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 04/48] fix: v6 grammar: IN, BETWEEN, LIKE, ILIKE and IS bind
 tighter than comparisons

The language reference and the declared operator precedence put them one level
above =, !=, <, <=, >, >=, ~= and ~!, but one grammar rule held both levels:
'a = b in [1, 2]' was read as '(a = b) in [1, 2]'.
---
 v6/pkg/parser/tsl_parser.y  |  24 +-
 v6/pkg/tsl/tsl_parser.tab.c | 455 ++++++++++++++++++------------------
 2 files changed, 240 insertions(+), 239 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 0da0a46..dedb558 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -60,7 +60,7 @@ char *error_string = NULL;
 %right UMINUS                      /* unary minus */
 
 /* Nonterminal types */
-%type <node> input expr or_expr and_expr comparison_expr
+%type <node> input expr or_expr and_expr relational_expr comparison_expr
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
@@ -82,20 +82,24 @@ or_expr:
     ;
 
 and_expr:
+      relational_expr
+    | and_expr K_AND relational_expr      { $$ = ast_create_binary(K_AND, $1, $3); }
+    ;
+
+relational_expr:
       comparison_expr
-    | and_expr K_AND comparison_expr      { $$ = ast_create_binary(K_AND, $1, $3); }
+    | relational_expr EQ comparison_expr      { $$ = ast_create_binary(EQ, $1, $3); }
+    | relational_expr NE comparison_expr      { $$ = ast_create_binary(NE, $1, $3); }
+    | relational_expr LT comparison_expr      { $$ = ast_create_binary(LT, $1, $3); }
+    | relational_expr LE comparison_expr      { $$ = ast_create_binary(LE, $1, $3); }
+    | relational_expr GT comparison_expr      { $$ = ast_create_binary(GT, $1, $3); }
+    | relational_expr GE comparison_expr      { $$ = ast_create_binary(GE, $1, $3); }
+    | relational_expr REQ comparison_expr     { $$ = ast_create_binary(REQ, $1, $3); }
+    | relational_expr RNE comparison_expr     { $$ = ast_create_binary(RNE, $1, $3); }
     ;
 
 comparison_expr:
       additive_expr
-    | comparison_expr EQ additive_expr      { $$ = ast_create_binary(EQ, $1, $3); }
-    | comparison_expr NE additive_expr      { $$ = ast_create_binary(NE, $1, $3); }
-    | comparison_expr LT additive_expr      { $$ = ast_create_binary(LT, $1, $3); }
-    | comparison_expr LE additive_expr      { $$ = ast_create_binary(LE, $1, $3); }
-    | comparison_expr GT additive_expr      { $$ = ast_create_binary(GT, $1, $3); }
-    | comparison_expr GE additive_expr      { $$ = ast_create_binary(GE, $1, $3); }
-    | comparison_expr REQ additive_expr     { $$ = ast_create_binary(REQ, $1, $3); }
-    | comparison_expr RNE additive_expr     { $$ = ast_create_binary(RNE, $1, $3); }
     | comparison_expr K_LIKE additive_expr  { $$ = ast_create_binary(K_LIKE, $1, $3); }
     | comparison_expr K_ILIKE additive_expr { $$ = ast_create_binary(K_ILIKE, $1, $3); }
     | comparison_expr K_NOT K_LIKE additive_expr  { 
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index ca82b8f..183e8af 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -176,15 +176,16 @@ enum yysymbol_kind_t
   YYSYMBOL_expr = 44,                      /* expr  */
   YYSYMBOL_or_expr = 45,                   /* or_expr  */
   YYSYMBOL_and_expr = 46,                  /* and_expr  */
-  YYSYMBOL_comparison_expr = 47,           /* comparison_expr  */
-  YYSYMBOL_additive_expr = 48,             /* additive_expr  */
-  YYSYMBOL_multiplicative_expr = 49,       /* multiplicative_expr  */
-  YYSYMBOL_not_expr = 50,                  /* not_expr  */
-  YYSYMBOL_unary_expr = 51,                /* unary_expr  */
-  YYSYMBOL_array = 52,                     /* array  */
-  YYSYMBOL_opt_array_elements = 53,        /* opt_array_elements  */
-  YYSYMBOL_array_elements = 54,            /* array_elements  */
-  YYSYMBOL_primary = 55                    /* primary  */
+  YYSYMBOL_relational_expr = 47,           /* relational_expr  */
+  YYSYMBOL_comparison_expr = 48,           /* comparison_expr  */
+  YYSYMBOL_additive_expr = 49,             /* additive_expr  */
+  YYSYMBOL_multiplicative_expr = 50,       /* multiplicative_expr  */
+  YYSYMBOL_not_expr = 51,                  /* not_expr  */
+  YYSYMBOL_unary_expr = 52,                /* unary_expr  */
+  YYSYMBOL_array = 53,                     /* array  */
+  YYSYMBOL_opt_array_elements = 54,        /* opt_array_elements  */
+  YYSYMBOL_array_elements = 55,            /* array_elements  */
+  YYSYMBOL_primary = 56                    /* primary  */
 };
 typedef enum yysymbol_kind_t yysymbol_kind_t;
 
@@ -510,18 +511,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  39
+#define YYFINAL  40
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   125
+#define YYLAST   101
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  42
 /* YYNNTS -- Number of nonterminals.  */
-#define YYNNTS  14
+#define YYNNTS  15
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  57
+#define YYNRULES  58
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  99
+#define YYNSTATES  100
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   296
@@ -575,11 +576,11 @@ static const yytype_int8 yytranslate[] =
 static const yytype_uint8 yyrline[] =
 {
        0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+      92,    93,    94,    95,    96,    97,    98,   102,   103,   104,
+     105,   109,   113,   114,   118,   126,   135,   136,   143,   144,
+     145,   149,   150,   151,   152,   156,   157,   158,   159,   160,
+     161,   165,   166,   167,   168,   169,   173,   177,   178,   179,
+     183,   189,   203,   204,   205,   206,   207,   208,   209
 };
 #endif
 
@@ -601,9 +602,9 @@ static const char *const yytname[] =
   "DATE", "LPAREN", "RPAREN", "COMMA", "PLUS", "MINUS", "STAR", "SLASH",
   "PERCENT", "LBRACKET", "RBRACKET", "NUMERIC_LITERAL", "STRING_LITERAL",
   "IDENTIFIER", "EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "UMINUS",
-  "$accept", "input", "expr", "or_expr", "and_expr", "comparison_expr",
-  "additive_expr", "multiplicative_expr", "not_expr", "unary_expr",
-  "array", "opt_array_elements", "array_elements", "primary", YY_NULLPTR
+  "$accept", "input", "expr", "or_expr", "and_expr", "relational_expr",
+  "comparison_expr", "additive_expr", "multiplicative_expr", "not_expr",
+  "unary_expr", "array", "opt_array_elements", "array_elements", "primary", YY_NULLPTR
 };
 
 static const char *
@@ -613,7 +614,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-36)
+#define YYPACT_NINF (-37)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -627,16 +628,16 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int8 yypact[] =
 {
-      72,    72,   -36,   -36,    72,    72,    72,    72,   -36,   -36,
-      72,    93,    93,    72,   -36,   -36,   -36,    12,   -36,    16,
-      31,    42,   -22,     8,   -36,   -36,   -36,   -36,   -36,   -36,
-     -36,   -36,   -36,    33,   -36,   -36,   -36,    23,    34,   -36,
-      72,    72,    72,    72,    72,    72,    15,    24,    72,    72,
-      72,    72,    72,    72,    72,    72,    72,    72,    72,    72,
-      72,   -36,   -36,    72,    31,    42,   -22,   -22,     6,   -22,
-     -36,    50,    72,    72,    72,    72,   -22,   -22,   -22,   -22,
-     -22,   -22,   -22,   -22,     8,     8,   -36,   -36,   -36,   -36,
-      72,   -36,   -22,   -22,    18,   -22,   -22,    72,   -22
+       8,     8,   -37,   -37,     8,     8,     8,     8,   -37,   -37,
+       8,    51,    51,     8,   -37,   -37,   -37,    14,   -37,    31,
+      39,    52,    69,   -22,    16,   -37,   -37,   -37,   -37,   -37,
+     -37,   -37,   -37,   -37,    35,   -37,   -37,   -37,    36,    44,
+     -37,     8,     8,     8,     8,     8,     8,     8,     8,     8,
+       8,     8,     8,     8,     8,    24,     5,     8,     8,     8,
+       8,     8,   -37,   -37,     8,    39,    52,    69,    69,    69,
+      69,    69,    69,    69,    69,   -22,   -22,     6,   -22,   -37,
+      47,     8,     8,     8,     8,    16,    16,   -37,   -37,   -37,
+     -37,     8,   -37,   -22,   -22,    28,   -22,   -22,     8,   -22
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -644,30 +645,30 @@ static const yytype_int8 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,     0,    56,    57,     0,     0,     0,     0,    54,    55,
-       0,     0,     0,    46,    51,    52,    53,     0,     2,     3,
-       4,     6,     8,    27,    30,    34,    44,    40,    35,    36,
-      37,    38,    39,     0,    42,    41,    49,     0,    47,     1,
+       0,     0,    57,    58,     0,     0,     0,     0,    55,    56,
+       0,     0,     0,    47,    52,    53,    54,     0,     2,     3,
+       4,     6,     8,    17,    28,    31,    35,    45,    41,    36,
+      37,    38,    39,    40,     0,    43,    42,    50,     0,    48,
+       1,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,    43,    45,    48,     5,     7,    17,    18,     0,    25,
-      21,     0,     0,     0,     0,     0,     9,    10,    11,    12,
-      13,    14,    15,    16,    28,    29,    31,    32,    33,    50,
-       0,    22,    19,    20,     0,    26,    23,     0,    24
+       0,     0,    44,    46,    49,     5,     7,     9,    10,    11,
+      12,    13,    14,    15,    16,    18,    19,     0,    26,    22,
+       0,     0,     0,     0,     0,    29,    30,    32,    33,    34,
+      51,     0,    23,    20,    21,     0,    27,    24,     0,    25
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -36,   -36,    11,   -36,    21,    22,   -35,   -13,    -1,    36,
-     -36,   -36,   -36,   -36
+     -37,   -37,    -3,   -37,    26,    59,    50,   -36,    -8,    -1,
+      42,   -37,   -37,   -37,   -37
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
        0,    17,    18,    19,    20,    21,    22,    23,    24,    25,
-      26,    37,    38,    27
+      26,    27,    38,    39,    28
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -675,36 +676,32 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      28,    56,    57,    29,    30,    31,    32,    66,    67,    68,
-      69,    90,    39,    76,    77,    78,    79,    80,    81,    82,
-      83,    33,    40,    97,    36,    70,    71,    72,    73,    56,
-      57,    74,    75,    58,    59,    60,    41,    92,    93,    94,
-      95,    56,    57,    84,    85,    42,    43,    34,    35,    44,
-      45,    46,    62,    47,    61,    96,    63,    86,    87,    88,
-      91,    64,    98,    65,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,    89,    48,    49,    50,    51,    52,
-      53,    54,    55,     1,     2,     3,     4,     5,     6,     7,
-       8,     9,    10,     0,     0,    11,    12,     0,     0,     0,
-      13,     0,    14,    15,    16,     2,     3,     0,     0,     0,
-       0,     8,     9,    10,     0,     0,    11,    12,     0,     0,
-       0,    13,     0,    14,    15,    16
+      29,    57,    58,    30,    31,    32,    33,    34,    81,    82,
+      37,    91,    83,    84,    40,    75,    76,    77,    78,     1,
+       2,     3,     4,     5,     6,     7,     8,     9,    10,    57,
+      58,    11,    12,    98,    79,    80,    13,    41,    14,    15,
+      16,    59,    60,    61,    42,    93,    94,    95,    96,    85,
+      86,    57,    58,    35,    36,    97,    62,    92,    87,    88,
+      89,    90,    99,     2,     3,    63,    64,    65,     0,     8,
+       9,    10,    51,    52,    11,    12,    53,    54,    55,    13,
+      56,    14,    15,    16,     0,    43,    44,    45,    46,    47,
+      48,    49,    50,    67,    68,    69,    70,    71,    72,    73,
+      74,    66
 };
 
 static const yytype_int8 yycheck[] =
 {
-       1,    23,    24,     4,     5,     6,     7,    42,    43,    44,
-      45,     5,     0,    48,    49,    50,    51,    52,    53,    54,
-      55,    10,     6,     5,    13,    10,    11,     3,     4,    23,
-      24,     7,     8,    25,    26,    27,     5,    72,    73,    74,
-      75,    23,    24,    56,    57,     3,     4,    11,    12,     7,
-       8,     9,    29,    11,    21,    90,    22,    58,    59,    60,
-      10,    40,    97,    41,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    63,    33,    34,    35,    36,    37,
-      38,    39,    40,    11,    12,    13,    14,    15,    16,    17,
-      18,    19,    20,    -1,    -1,    23,    24,    -1,    -1,    -1,
-      28,    -1,    30,    31,    32,    12,    13,    -1,    -1,    -1,
-      -1,    18,    19,    20,    -1,    -1,    23,    24,    -1,    -1,
-      -1,    28,    -1,    30,    31,    32
+       1,    23,    24,     4,     5,     6,     7,    10,     3,     4,
+      13,     5,     7,     8,     0,    51,    52,    53,    54,    11,
+      12,    13,    14,    15,    16,    17,    18,    19,    20,    23,
+      24,    23,    24,     5,    10,    11,    28,     6,    30,    31,
+      32,    25,    26,    27,     5,    81,    82,    83,    84,    57,
+      58,    23,    24,    11,    12,    91,    21,    10,    59,    60,
+      61,    64,    98,    12,    13,    29,    22,    41,    -1,    18,
+      19,    20,     3,     4,    23,    24,     7,     8,     9,    28,
+      11,    30,    31,    32,    -1,    33,    34,    35,    36,    37,
+      38,    39,    40,    43,    44,    45,    46,    47,    48,    49,
+      50,    42
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
@@ -713,36 +710,36 @@ static const yytype_int8 yystos[] =
 {
        0,    11,    12,    13,    14,    15,    16,    17,    18,    19,
       20,    23,    24,    28,    30,    31,    32,    43,    44,    45,
-      46,    47,    48,    49,    50,    51,    52,    55,    50,    50,
-      50,    50,    50,    44,    51,    51,    44,    53,    54,     0,
-       6,     5,     3,     4,     7,     8,     9,    11,    33,    34,
-      35,    36,    37,    38,    39,    40,    23,    24,    25,    26,
-      27,    21,    29,    22,    46,    47,    48,    48,    48,    48,
-      10,    11,     3,     4,     7,     8,    48,    48,    48,    48,
-      48,    48,    48,    48,    49,    49,    50,    50,    50,    44,
-       5,    10,    48,    48,    48,    48,    48,     5,    48
+      46,    47,    48,    49,    50,    51,    52,    53,    56,    51,
+      51,    51,    51,    51,    44,    52,    52,    44,    54,    55,
+       0,     6,     5,    33,    34,    35,    36,    37,    38,    39,
+      40,     3,     4,     7,     8,     9,    11,    23,    24,    25,
+      26,    27,    21,    29,    22,    46,    47,    48,    48,    48,
+      48,    48,    48,    48,    48,    49,    49,    49,    49,    10,
+      11,     3,     4,     7,     8,    50,    50,    51,    51,    51,
+      44,     5,    10,    49,    49,    49,    49,    49,     5,    49
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
        0,    42,    43,    44,    45,    45,    46,    46,    47,    47,
-      47,    47,    47,    47,    47,    47,    47,    47,    47,    47,
       47,    47,    47,    47,    47,    47,    47,    48,    48,    48,
-      49,    49,    49,    49,    50,    50,    50,    50,    50,    50,
-      51,    51,    51,    51,    51,    52,    53,    53,    53,    54,
-      54,    55,    55,    55,    55,    55,    55,    55
+      48,    48,    48,    48,    48,    48,    48,    48,    49,    49,
+      49,    50,    50,    50,    50,    51,    51,    51,    51,    51,
+      51,    52,    52,    52,    52,    52,    53,    54,    54,    54,
+      55,    55,    56,    56,    56,    56,    56,    56,    56
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
        0,     2,     1,     1,     1,     3,     1,     3,     1,     3,
-       3,     3,     3,     3,     3,     3,     3,     3,     3,     4,
-       4,     3,     4,     5,     6,     3,     4,     1,     3,     3,
-       1,     3,     3,     3,     1,     2,     2,     2,     2,     2,
-       1,     2,     2,     3,     1,     3,     0,     1,     2,     1,
-       3,     1,     1,     1,     1,     1,     1,     1
+       3,     3,     3,     3,     3,     3,     3,     1,     3,     3,
+       4,     4,     3,     4,     5,     6,     3,     4,     1,     3,
+       3,     1,     3,     3,     3,     1,     2,     2,     2,     2,
+       2,     1,     2,     2,     3,     1,     3,     0,     1,     2,
+       1,     3,     1,     1,     1,     1,     1,     1,     1
 };
 
 
@@ -1208,116 +1205,116 @@ yyreduce:
   case 2: /* input: expr  */
 #line 72 "tsl_parser.y"
          { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 1209 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
 #line 81 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1215 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 7: /* and_expr: and_expr K_AND comparison_expr  */
+  case 7: /* and_expr: and_expr K_AND relational_expr  */
 #line 86 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1221 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
+  case 9: /* relational_expr: relational_expr EQ comparison_expr  */
 #line 91 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1227 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 10: /* comparison_expr: comparison_expr NE additive_expr  */
+  case 10: /* relational_expr: relational_expr NE comparison_expr  */
 #line 92 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1233 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 11: /* comparison_expr: comparison_expr LT additive_expr  */
+  case 11: /* relational_expr: relational_expr LT comparison_expr  */
 #line 93 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1239 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 12: /* comparison_expr: comparison_expr LE additive_expr  */
+  case 12: /* relational_expr: relational_expr LE comparison_expr  */
 #line 94 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1245 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 13: /* comparison_expr: comparison_expr GT additive_expr  */
+  case 13: /* relational_expr: relational_expr GT comparison_expr  */
 #line 95 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1251 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 14: /* comparison_expr: comparison_expr GE additive_expr  */
+  case 14: /* relational_expr: relational_expr GE comparison_expr  */
 #line 96 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1257 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
+  case 15: /* relational_expr: relational_expr REQ comparison_expr  */
 #line 97 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1263 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
+  case 16: /* relational_expr: relational_expr RNE comparison_expr  */
 #line 98 "tsl_parser.y"
-                                            { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+                                              { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
+#line 1269 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+  case 18: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1275 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+  case 19: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1281 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+  case 20: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
+#line 105 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1290 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+  case 21: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
+#line 109 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1299 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+  case 22: /* comparison_expr: comparison_expr K_IS K_NULL  */
+#line 113 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1305 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+  case 23: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
+#line 114 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1314 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+  case 24: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
+#line 118 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1323,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1327 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+  case 25: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
+#line 126 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,145 +1337,145 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1341 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+  case 26: /* comparison_expr: comparison_expr K_IN additive_expr  */
+#line 135 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1347 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+  case 27: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
+#line 136 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1356 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+  case 29: /* additive_expr: additive_expr PLUS multiplicative_expr  */
+#line 144 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1362 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+  case 30: /* additive_expr: additive_expr MINUS multiplicative_expr  */
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1368 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+  case 32: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
+#line 150 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1374 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+  case 33: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1380 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+  case 34: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1386 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+  case 36: /* not_expr: K_NOT not_expr  */
+#line 157 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1392 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+  case 37: /* not_expr: K_LEN not_expr  */
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1398 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+  case 38: /* not_expr: K_ANY not_expr  */
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1404 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+  case 39: /* not_expr: K_ALL not_expr  */
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1410 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+  case 40: /* not_expr: K_SUM not_expr  */
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1416 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+  case 42: /* unary_expr: MINUS unary_expr  */
+#line 166 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1422 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+  case 43: /* unary_expr: PLUS unary_expr  */
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1428 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+  case 44: /* unary_expr: LPAREN expr RPAREN  */
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1434 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+  case 45: /* unary_expr: array  */
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1440 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+  case 46: /* array: LBRACKET opt_array_elements RBRACKET  */
+#line 173 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1446 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+  case 47: /* opt_array_elements: %empty  */
+#line 177 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1452 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+  case 48: /* opt_array_elements: array_elements  */
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1458 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+  case 49: /* opt_array_elements: array_elements COMMA  */
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1464 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+  case 50: /* array_elements: expr  */
+#line 183 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1475 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+  case 51: /* array_elements: array_elements COMMA expr  */
+#line 189 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
@@ -1490,53 +1487,53 @@ yyreduce:
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1491 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+  case 52: /* primary: NUMERIC_LITERAL  */
+#line 203 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1497 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+  case 53: /* primary: STRING_LITERAL  */
+#line 204 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1503 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+  case 54: /* primary: IDENTIFIER  */
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1509 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+  case 55: /* primary: RFC3339  */
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1515 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+  case 56: /* primary: DATE  */
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1521 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+  case 57: /* primary: K_TRUE  */
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1527 "../tsl/tsl_parser.tab.c"
     break;
 
-  case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+  case 58: /* primary: K_FALSE  */
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1533 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1726,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 212 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From ae1a05be1220569d8c765a1813ffd872547c5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 05/48] fix: v6 parser: release everything a parse allocates

Every list element after the first was copied and its original leaked (and
building a list took quadratic time), and the tokens and subtrees the parser
discards on a syntax error were never freed.
---
 v6/pkg/parser/tsl_parser.y  |  18 +-
 v6/pkg/tsl/tsl_ast.c        |   7 +
 v6/pkg/tsl/tsl_ast.h        |   3 +
 v6/pkg/tsl/tsl_parser.tab.c | 342 ++++++++++++++++++++++++------------
 4 files changed, 241 insertions(+), 129 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index dedb558..025d5ea 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -64,12 +64,16 @@ char *error_string = NULL;
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Release what the parser discards on a syntax error */
+%destructor { ast_free($$); } <node>
+%destructor { free($$); } <str>
+
 %start input
 
 %%
 
 input:
-    expr { $$ = $1; ast_root = $1; }
+    expr { $$ = NULL; ast_root = $1; }  /* ast_root owns the tree */
     ;
 
 expr:
@@ -186,17 +190,7 @@ array_elements:
                                       $$ = ast_create_array(1, elements);
                                       free(elements);
                                     }
-    | array_elements COMMA expr     {
-                                      ast_node **elements = malloc(($1->data.array.size + 1) * sizeof(ast_node*));
-                                      // Copy existing elements
-                                      for(int i = 0; i < $1->data.array.size; i++) {
-                                          elements[i] = ast_clone($1->data.array.elements[i]);
-                                      }
-                                      elements[$1->data.array.size] = ast_clone($3);
-                                      $$ = ast_create_array($1->data.array.size + 1, elements);
-                                      free(elements);
-                                      ast_free($1);
-                                    }
+    | array_elements COMMA expr     { $$ = $1; ast_array_append($$, $3); }
     ;
 
 primary:
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..a174f22 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -109,6 +109,13 @@ ast_node *ast_create_array(int size, ast_node **elements) {
     return node;
 }
 
+void ast_array_append(ast_node *node, ast_node *element) {
+    int size = node->data.array.size;
+    node->data.array.elements = realloc(node->data.array.elements, (size + 1) * sizeof(ast_node*));
+    node->data.array.elements[size] = element;
+    node->data.array.size = size + 1;
+}
+
 void ast_free(ast_node *node) {
     if (!node) return;
     
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..52dfadf 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -55,6 +55,9 @@ ast_node *ast_create_rfc3339(const char *value);
 ast_node *ast_create_array(int size, ast_node **elements);
 ast_node *ast_clone(const ast_node *node);
 
+/* Append an element to an array node, which takes ownership of it */
+void ast_array_append(ast_node *node, ast_node *element);
+
 /* AST node manipulation functions */
 ast_node *ast_detach_binary_left(ast_node *node);
 ast_node *ast_detach_binary_right(ast_node *node);
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 183e8af..6789e66 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -575,12 +575,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,   102,   103,   104,
-     105,   109,   113,   114,   118,   126,   135,   136,   143,   144,
-     145,   149,   150,   151,   152,   156,   157,   158,   159,   160,
-     161,   165,   166,   167,   168,   169,   173,   177,   178,   179,
-     183,   189,   203,   204,   205,   206,   207,   208,   209
+       0,    76,    76,    80,    84,    85,    89,    90,    94,    95,
+      96,    97,    98,    99,   100,   101,   102,   106,   107,   108,
+     109,   113,   117,   118,   122,   130,   139,   140,   147,   148,
+     149,   153,   154,   155,   156,   160,   161,   162,   163,   164,
+     165,   169,   170,   171,   172,   173,   177,   181,   182,   183,
+     187,   193,   197,   198,   199,   200,   201,   202,   203
 };
 #endif
 
@@ -940,7 +940,125 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 949 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 955 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 961 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 967 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 973 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_input: /* input  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 979 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 985 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 991 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 997 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_relational_expr: /* relational_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1003 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1009 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1015 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1021 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1027 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1033 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1039 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1045 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1051 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1057 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1203,118 +1321,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
-         { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1209 "../tsl/tsl_parser.tab.c"
+#line 76 "tsl_parser.y"
+         { (yyval.node) = NULL; ast_root = (yyvsp[0].node); }
+#line 1327 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 85 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1215 "../tsl/tsl_parser.tab.c"
+#line 1333 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND relational_expr  */
-#line 86 "tsl_parser.y"
+#line 90 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1221 "../tsl/tsl_parser.tab.c"
+#line 1339 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* relational_expr: relational_expr EQ comparison_expr  */
-#line 91 "tsl_parser.y"
+#line 95 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1227 "../tsl/tsl_parser.tab.c"
+#line 1345 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* relational_expr: relational_expr NE comparison_expr  */
-#line 92 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1233 "../tsl/tsl_parser.tab.c"
+#line 1351 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* relational_expr: relational_expr LT comparison_expr  */
-#line 93 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1239 "../tsl/tsl_parser.tab.c"
+#line 1357 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* relational_expr: relational_expr LE comparison_expr  */
-#line 94 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1245 "../tsl/tsl_parser.tab.c"
+#line 1363 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* relational_expr: relational_expr GT comparison_expr  */
-#line 95 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1251 "../tsl/tsl_parser.tab.c"
+#line 1369 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* relational_expr: relational_expr GE comparison_expr  */
-#line 96 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1257 "../tsl/tsl_parser.tab.c"
+#line 1375 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* relational_expr: relational_expr REQ comparison_expr  */
-#line 97 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1263 "../tsl/tsl_parser.tab.c"
+#line 1381 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* relational_expr: relational_expr RNE comparison_expr  */
-#line 98 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                               { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1269 "../tsl/tsl_parser.tab.c"
+#line 1387 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 103 "tsl_parser.y"
+#line 107 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1275 "../tsl/tsl_parser.tab.c"
+#line 1393 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 104 "tsl_parser.y"
+#line 108 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1281 "../tsl/tsl_parser.tab.c"
+#line 1399 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 109 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1290 "../tsl/tsl_parser.tab.c"
+#line 1408 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 109 "tsl_parser.y"
+#line 113 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1299 "../tsl/tsl_parser.tab.c"
+#line 1417 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 113 "tsl_parser.y"
+#line 117 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1305 "../tsl/tsl_parser.tab.c"
+#line 1423 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 114 "tsl_parser.y"
+#line 118 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1314 "../tsl/tsl_parser.tab.c"
+#line 1432 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 118 "tsl_parser.y"
+#line 122 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1323,11 +1441,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1327 "../tsl/tsl_parser.tab.c"
+#line 1445 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 126 "tsl_parser.y"
+#line 130 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1337,203 +1455,193 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1341 "../tsl/tsl_parser.tab.c"
+#line 1459 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 135 "tsl_parser.y"
+#line 139 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1347 "../tsl/tsl_parser.tab.c"
+#line 1465 "../tsl/tsl_parser.tab.c"
     break;
 
   case 27: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 136 "tsl_parser.y"
+#line 140 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1356 "../tsl/tsl_parser.tab.c"
+#line 1474 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 144 "tsl_parser.y"
+#line 148 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1362 "../tsl/tsl_parser.tab.c"
+#line 1480 "../tsl/tsl_parser.tab.c"
     break;
 
   case 30: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 145 "tsl_parser.y"
+#line 149 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1368 "../tsl/tsl_parser.tab.c"
+#line 1486 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 150 "tsl_parser.y"
+#line 154 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1374 "../tsl/tsl_parser.tab.c"
+#line 1492 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 151 "tsl_parser.y"
+#line 155 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1380 "../tsl/tsl_parser.tab.c"
+#line 1498 "../tsl/tsl_parser.tab.c"
     break;
 
   case 34: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 152 "tsl_parser.y"
+#line 156 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1386 "../tsl/tsl_parser.tab.c"
+#line 1504 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_NOT not_expr  */
-#line 157 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1392 "../tsl/tsl_parser.tab.c"
+#line 1510 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_LEN not_expr  */
-#line 158 "tsl_parser.y"
+#line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1398 "../tsl/tsl_parser.tab.c"
+#line 1516 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ANY not_expr  */
-#line 159 "tsl_parser.y"
+#line 163 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1404 "../tsl/tsl_parser.tab.c"
+#line 1522 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_ALL not_expr  */
-#line 160 "tsl_parser.y"
+#line 164 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1410 "../tsl/tsl_parser.tab.c"
+#line 1528 "../tsl/tsl_parser.tab.c"
     break;
 
   case 40: /* not_expr: K_SUM not_expr  */
-#line 161 "tsl_parser.y"
+#line 165 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1416 "../tsl/tsl_parser.tab.c"
+#line 1534 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: MINUS unary_expr  */
-#line 166 "tsl_parser.y"
+#line 170 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1422 "../tsl/tsl_parser.tab.c"
+#line 1540 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: PLUS unary_expr  */
-#line 167 "tsl_parser.y"
+#line 171 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1428 "../tsl/tsl_parser.tab.c"
+#line 1546 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: LPAREN expr RPAREN  */
-#line 168 "tsl_parser.y"
+#line 172 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1434 "../tsl/tsl_parser.tab.c"
+#line 1552 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* unary_expr: array  */
-#line 169 "tsl_parser.y"
+#line 173 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1440 "../tsl/tsl_parser.tab.c"
+#line 1558 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 173 "tsl_parser.y"
+#line 177 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1446 "../tsl/tsl_parser.tab.c"
+#line 1564 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: %empty  */
-#line 177 "tsl_parser.y"
+#line 181 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1452 "../tsl/tsl_parser.tab.c"
+#line 1570 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements  */
-#line 178 "tsl_parser.y"
+#line 182 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1458 "../tsl/tsl_parser.tab.c"
+#line 1576 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* opt_array_elements: array_elements COMMA  */
-#line 179 "tsl_parser.y"
+#line 183 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1464 "../tsl/tsl_parser.tab.c"
+#line 1582 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: expr  */
-#line 183 "tsl_parser.y"
+#line 187 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1475 "../tsl/tsl_parser.tab.c"
+#line 1593 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* array_elements: array_elements COMMA expr  */
-#line 189 "tsl_parser.y"
-                                    {
-                                      ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
-                                      // Copy existing elements
-                                      for(int i = 0; i < (yyvsp[-2].node)->data.array.size; i++) {
-                                          elements[i] = ast_clone((yyvsp[-2].node)->data.array.elements[i]);
-                                      }
-                                      elements[(yyvsp[-2].node)->data.array.size] = ast_clone((yyvsp[0].node));
-                                      (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
-                                      free(elements);
-                                      ast_free((yyvsp[-2].node));
-                                    }
-#line 1491 "../tsl/tsl_parser.tab.c"
+#line 193 "tsl_parser.y"
+                                    { (yyval.node) = (yyvsp[-2].node); ast_array_append((yyval.node), (yyvsp[0].node)); }
+#line 1599 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: NUMERIC_LITERAL  */
-#line 203 "tsl_parser.y"
+#line 197 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1497 "../tsl/tsl_parser.tab.c"
+#line 1605 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: STRING_LITERAL  */
-#line 204 "tsl_parser.y"
+#line 198 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1503 "../tsl/tsl_parser.tab.c"
+#line 1611 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: IDENTIFIER  */
-#line 205 "tsl_parser.y"
+#line 199 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1509 "../tsl/tsl_parser.tab.c"
+#line 1617 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: RFC3339  */
-#line 206 "tsl_parser.y"
+#line 200 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1515 "../tsl/tsl_parser.tab.c"
+#line 1623 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: DATE  */
-#line 207 "tsl_parser.y"
+#line 201 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1521 "../tsl/tsl_parser.tab.c"
+#line 1629 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_TRUE  */
-#line 208 "tsl_parser.y"
+#line 202 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1527 "../tsl/tsl_parser.tab.c"
+#line 1635 "../tsl/tsl_parser.tab.c"
     break;
 
   case 58: /* primary: K_FALSE  */
-#line 209 "tsl_parser.y"
+#line 203 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1533 "../tsl/tsl_parser.tab.c"
+#line 1641 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1537 "../tsl/tsl_parser.tab.c"
+#line 1645 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1726,7 +1834,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 212 "tsl_parser.y"
+#line 206 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From f138d2ae0a8fc24f11b8db96510b6a9c4fb99c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 06/48] fix: v6 ParseTSL: serialize use of the C parser

The generated scanner and parser keep their state in C globals, so parsing on
two goroutines at once corrupted memory or mixed up results.
---
 v6/pkg/tsl/tsl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..064f627 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"sync"
 	"time"
 	"unsafe"
 )
@@ -43,8 +44,14 @@ type TSLArrayLiteral struct {
 	Values []*TSLNode
 }
 
+// parseMutex guards the C scanner and parser, which keep their state in globals
+var parseMutex sync.Mutex
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From e3f07fb4591b8e3950a2c1c869acc7cab31619d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 07/48] fix: v6 ParseTSL: reject a NUL byte instead of ignoring
 what follows it

---
 v6/pkg/tsl/tsl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 064f627..79d17cf 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"sync"
 	"time"
 	"unsafe"
@@ -49,6 +50,16 @@ var parseMutex sync.Mutex
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// The C parser reads up to a NUL byte, which no token may contain
+	if i := strings.IndexByte(input, 0); i >= 0 {
+		return nil, &SyntaxError{
+			Message:  "syntax error",
+			Position: i,
+			Context:  input[i : i+1],
+			Input:    input,
+		}
+	}
+
 	parseMutex.Lock()
 	defer parseMutex.Unlock()
 
-- 
2.43.0


From fd6db93645c754a4d2001537d549979f340110be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 08/48] fix: v6 numbers: a binary size suffix may be spelled
 with an upper case I

The lexer accepts 'KI' like 'Ki', but it was multiplied by 1000 instead of 1024.
---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index a174f22..d0e9aba 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -24,7 +24,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From 7db4d9d5af282b00854b10f60193e30b2da77672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 09/48] fix: v6 TSLNode.Value: a detached operand reads as nil,
 not as a node that panics

---
 v6/pkg/tsl/tsl.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 79d17cf..a816b9f 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -96,6 +96,14 @@ func (n *TSLNode) Free() {
 	}
 }
 
+// wrap returns the Go view of a C node, nil for an operand that was detached
+func wrap(cNode *C.ast_node) *TSLNode {
+	if cNode == nil {
+		return nil
+	}
+	return &TSLNode{cNode: cNode}
+}
+
 // Clone creates a deep copy of the TSLNode and its children
 func (n *TSLNode) Clone() *TSLNode {
 	if n == nil || n.cNode == nil {
@@ -130,14 +138,14 @@ func (n *TSLNode) Value() interface{} {
 	case KindBinaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_binary_op(n.cNode)),
-			Left:     &TSLNode{cNode: C.get_binary_left(n.cNode)},
-			Right:    &TSLNode{cNode: C.get_binary_right(n.cNode)},
+			Left:     wrap(C.get_binary_left(n.cNode)),
+			Right:    wrap(C.get_binary_right(n.cNode)),
 		}
 	case KindUnaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_unary_op(n.cNode)),
 			Left:     nil,
-			Right:    &TSLNode{cNode: C.get_unary_child(n.cNode)},
+			Right:    wrap(C.get_unary_child(n.cNode)),
 		}
 	case KindArrayLiteral:
 		size := int(C.get_array_size(n.cNode))
-- 
2.43.0


From 95b45b643cdeec3ed8c1ae1aba80273fd5f0e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 10/48] fix: v6 ast_free, ast_clone: do not overflow the C
 stack on a long chain of operators

---
 v6/pkg/tsl/tsl_ast.c | 144 ++++++++++++++++++++++++-------------------
 1 file changed, 80 insertions(+), 64 deletions(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index d0e9aba..c6405b5 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -117,75 +117,91 @@ void ast_array_append(ast_node *node, ast_node *element) {
 }
 
 void ast_free(ast_node *node) {
-    if (!node) return;
-    
-    switch (node->type) {
-        case AST_STRING:
-        case AST_IDENTIFIER:
-        case AST_DATE:
-        case AST_RFC3339:
-            free(node->data.string);
-            break;
-        case AST_BINARY_OP:
-            ast_free(node->data.binary.left);
-            ast_free(node->data.binary.right);
-            break;
-        case AST_UNARY_OP:
-            ast_free(node->data.unary.child);
-            break;
-        case AST_ARRAY:
-            for (int i = 0; i < node->data.array.size; i++) {
-                ast_free(node->data.array.elements[i]);
-            }
-            free(node->data.array.elements);
-            break;
-        default:
-            break;
+    /* left operands are followed in a loop: a chain of operators is as deep as it is long */
+    while (node) {
+        ast_node *next = NULL;
+
+        switch (node->type) {
+            case AST_STRING:
+            case AST_IDENTIFIER:
+            case AST_DATE:
+            case AST_RFC3339:
+                free(node->data.string);
+                break;
+            case AST_BINARY_OP:
+                ast_free(node->data.binary.right);
+                next = node->data.binary.left;
+                break;
+            case AST_UNARY_OP:
+                next = node->data.unary.child;
+                break;
+            case AST_ARRAY:
+                for (int i = 0; i < node->data.array.size; i++) {
+                    ast_free(node->data.array.elements[i]);
+                }
+                free(node->data.array.elements);
+                break;
+            default:
+                break;
+        }
+
+        free(node);
+        node = next;
     }
-    
-    free(node);
 }
 
 ast_node *ast_clone(const ast_node *node) {
-    if (!node) return NULL;
-    
-    ast_node *clone = malloc(sizeof(ast_node));
-    clone->type = node->type;
-    
-    switch (node->type) {
-        case AST_NUMBER:
-            clone->data.number = node->data.number;
-            break;
-        case AST_BOOL:
-            clone->data.boolean = node->data.boolean;
-            break;
-        case AST_STRING:
-        case AST_IDENTIFIER:
-        case AST_DATE:
-        case AST_RFC3339:
-            clone->data.string = strdup(node->data.string);
-            break;
-        case AST_BINARY_OP:
-            clone->data.binary.op = node->data.binary.op;
-            clone->data.binary.left = ast_clone(node->data.binary.left);
-            clone->data.binary.right = ast_clone(node->data.binary.right);
-            break;
-        case AST_UNARY_OP:
-            clone->data.unary.op = node->data.unary.op;
-            clone->data.unary.child = ast_clone(node->data.unary.child);
-            break;
-        case AST_ARRAY:
-            clone->data.array.size = node->data.array.size;
-            clone->data.array.elements = malloc(node->data.array.size * sizeof(ast_node*));
-            for (int i = 0; i < node->data.array.size; i++) {
-                clone->data.array.elements[i] = ast_clone(node->data.array.elements[i]);
-            }
-            break;
-        case AST_NULL:
-            // Nothing additional needed for NULL type
-            break;
+    ast_node *root = NULL;
+    ast_node **slot = &root;
+
+    /* left operands are followed in a loop, as in ast_free */
+    while (node) {
+        const ast_node *next = NULL;
+        ast_node *clone = malloc(sizeof(ast_node));
+        clone->type = node->type;
+        *slot = clone;
+
+        switch (node->type) {
+            case AST_NUMBER:
+                clone->data.number = node->data.number;
+                break;
+            case AST_BOOL:
+                clone->data.boolean = node->data.boolean;
+                break;
+            case AST_STRING:
+            case AST_IDENTIFIER:
+            case AST_DATE:
+            case AST_RFC3339:
+                clone->data.string = strdup(node->data.string);
+                break;
+            case AST_BINARY_OP:
+                clone->data.binary.op = node->data.binary.op;
+                clone->data.binary.right = ast_clone(node->data.binary.right);
+                clone->data.binary.left = NULL;
+                slot = &clone->data.binary.left;
+                next = node->data.binary.left;
+                break;
+            case AST_UNARY_OP:
+                clone->data.unary.op = node->data.unary.op;
+                clone->data.unary.child = NULL;
+                slot = &clone->data.unary.child;
+                next = node->data.unary.child;
+                break;
+            case AST_ARRAY:
+                clone->data.array.size = node->data.array.size;
+                clone->data.array.elements = malloc(node->data.array.size * sizeof(ast_node*));
+                for (int i = 0; i < node->data.array.size; i++) {
+                    clone->data.array.elements[i] = ast_clone(node->data.array.elements[i]);
+                }
+                break;
+            case AST_NULL:
+                // Nothing additional needed for NULL type
+                break;
+        }
+
+        node = next;
     }
-    return clone;
+    return root;
 }
 
 double get_number_value(const ast_node *node) {
-- 
2.43.0


From 6955f26a0e58de50b165414e336c791edd88472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 11/48] fix: v6 semantics: LIKE and ILIKE patterns give meaning
 to % and _ only

---
 v6/pkg/walkers/semantics/evaluators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..bdaf83c 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -176,11 +176,11 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, only % and _ are special
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
-	return matched, nil
+	return regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 }
 
 // evaluateIlikePattern performs case-insensitive pattern matching with SQL LIKE semantics
-- 
2.43.0


From bdceb3f946a6771422a5b298636e9928e7af674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 12/48] fix: v6 semantics: modulus by a fraction below one is
 an error, not a panic

---
 v6/pkg/walkers/semantics/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..12ee537 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -234,7 +234,7 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		}
 		return leftNum / rightNum, nil
 	case tsl.OpPercent:
-		if rightNum == 0 {
+		if int64(rightNum) == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
 		return float64(int64(leftNum) % int64(rightNum)), nil
-- 
2.43.0


From f27e21616c652cb8908ce612160e7e9d46e75e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 13/48] fix: v6 semantics: comparing values of an uncomparable
 Go type does not panic

---
 v6/pkg/walkers/semantics/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 12ee537..5d5b753 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,8 +208,8 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
-	// Fallback to Go’s built‑in equality for identical types
-	return leftVal == rightVal, nil
+	// Fallback to equality of identical types, which may be uncomparable (e.g. maps)
+	return reflect.DeepEqual(leftVal, rightVal), nil
 }
 
 func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}) (interface{}, error) {
-- 
2.43.0


From 41c6e4618837d363f78897426223f6568d7c8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 14/48] fix: v6 semantics: IN and BETWEEN take dates without a
 time of day, as = and < do

---
 v6/pkg/walkers/semantics/evaluators.go | 47 ++++++--------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index bdaf83c..7fda531 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -67,38 +67,13 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 
 	switch value.(type) {
 	case string, float64, time.Time, bool:
-		// Continue with existing type-specific checks
-		switch v := value.(type) {
-		case string:
-			for _, item := range arr {
-				if str, ok := item.(string); ok && str == v {
-					return true, nil
-				}
+		for _, item := range arr {
+			matched, err := evaluateEquality(value, item)
+			if err != nil {
+				return false, err
 			}
-		case float64:
-			for _, item := range arr {
-				switch i := item.(type) {
-				case float64:
-					if i == v {
-						return true, nil
-					}
-				case int:
-					if float64(i) == v {
-						return true, nil
-					}
-				}
-			}
-		case time.Time:
-			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
-					return true, nil
-				}
-			}
-		case bool:
-			for _, item := range arr {
-				if b, ok := item.(bool); ok && b == v {
-					return true, nil
-				}
+			if matched {
+				return true, nil
 			}
 		}
 		return false, nil
@@ -113,8 +88,7 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
-	switch v := value.(type) {
-	case float64:
+	if v, ok := value.(float64); ok {
 		minVal, okMin := toFloat64(min)
 		maxVal, okMax := toFloat64(max)
 		if okMin && okMax {
@@ -140,9 +114,10 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 			}
 		}
 		return v >= minVal && v <= maxVal, nil
-	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
+	}
+	if v, ok := toDate(value); ok {
+		minTime, okMin := toDate(min)
+		maxTime, okMax := toDate(max)
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "time values",
-- 
2.43.0


From 34d67032a6f92a9a5b126bd21e7431e60e82c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 15/48] fix: v6 semantics: a comparison with a null value is
 false, not an error

---
 v6/pkg/walkers/semantics/walk.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 5d5b753..b0ae550 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -132,6 +132,16 @@ func evaluateBinaryExpression(operator tsl.Operator, leftVal, rightVal interface
 		return result, nil
 	}
 
+	// A comparison with a null value does not hold
+	if leftVal == nil || rightVal == nil {
+		switch operator {
+		case tsl.OpLT, tsl.OpLE, tsl.OpGT, tsl.OpGE, tsl.OpREQ, tsl.OpLike, tsl.OpILike:
+			return false, nil
+		case tsl.OpRNE:
+			return true, nil
+		}
+	}
+
 	switch operator {
 	case tsl.OpEQ:
 		return evaluateEquality(leftVal, rightVal)
@@ -175,6 +185,10 @@ func evaluateBinaryExpression(operator tsl.Operator, leftVal, rightVal interface
 			return nil, tsl.TypeMismatchError{Expected: "min and max values", Got: fmt.Sprintf("%d values", len(rightArray))}
 		}
 
+		if leftVal == nil || rightArray[0] == nil || rightArray[1] == nil {
+			return false, nil
+		}
+
 		return isValueInRange(leftVal, rightArray[0], rightArray[1])
 	case tsl.OpIs: // is null
 		if rightVal == nil {
-- 
2.43.0


From f7a0aaeed6710c3d3ccadf34cba564c27f0f3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 16/48] fix: v6 ident: map the identifiers in lists and ranges,
 release the copy of a lone identifier

---
 v6/pkg/tsl/tsl.go            |  8 ++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 32 +++++++++++++++++++++++++++++---
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index a816b9f..691ff02 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -220,3 +220,11 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as the element of an array node, in place of the present one
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index c6405b5..b841147 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -308,3 +308,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 52dfadf..ee4ccbc 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -65,6 +65,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..be5e7ec 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -71,6 +71,11 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		return nil, err
 	}
 
+	// A root identifier is replaced by a new tree, the copy is not part of it
+	if newTree != treeCopy {
+		treeCopy.Free()
+	}
+
 	return newTree, nil
 }
 
@@ -97,7 +102,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process both sides of the binary expression
 		left := op.Left
-		if left.Type() == tsl.KindIdentifier {
+		if left != nil && left.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(left, check)
 			if err != nil {
 				return nil, err
@@ -111,7 +116,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 		}
 
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
@@ -131,7 +136,7 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		// Process the operand
 		right := op.Right
-		if right.Type() == tsl.KindIdentifier {
+		if right != nil && right.Type() == tsl.KindIdentifier {
 			newNode, err := processIdentifier(right, check)
 			if err != nil {
 				return nil, err
@@ -146,6 +151,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process the elements
+		for i, element := range array.Values {
+			if element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From cbf27b2de33163d054313272f668663ce4293597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 17/48] fix: v6 graphviz: escape the characters that have a
 meaning in a label

---
 v6/pkg/walkers/graphviz/walk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..a69460f 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -48,6 +48,10 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// labelEscaper escapes the characters that have a meaning in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`)
+
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
 	if in != "" {
@@ -57,7 +61,7 @@ func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType ts
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		labelEscaper.Replace(fmt.Sprint(value)))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
-- 
2.43.0


From f9e163e123ce84bd45bacdec8f6d8ec5bd2334a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 18/48] fix: v6 graphviz: node IDs do not collide

---
 v6/pkg/walkers/graphviz/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index a69460f..debfee2 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -38,6 +38,9 @@ const timestampStyle = baseRecordStyle + " color=orange"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
+// idLength makes node IDs unique in practice, and longer than any dot keyword.
+const idLength = 16
+
 // Generate a random string of specified length using only letters
 func randStr(l int) string {
 	const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
@@ -79,7 +82,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
-		childID := randStr(4)
+		childID := randStr(idLength)
 		childrenIDs = append(childrenIDs, childID)
 
 		r, err := Walk(in, child, childID)
@@ -111,7 +114,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 //	s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	switch n.Type() {
-- 
2.43.0


From 17c161f9a55141d9fbf95227be1f9e1faefd61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 19/48] fix: v6 graphviz: draw null, skip a detached operand

---
 v6/pkg/walkers/graphviz/walk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index debfee2..c48c1d7 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -35,6 +35,7 @@ const stringStyle = baseRecordStyle + " color=blue"
 const booleanStyle = baseRecordStyle + " color=purple"
 const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
+const nullStyle = baseRecordStyle + " color=gray"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
@@ -82,6 +83,10 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 	result := ""
 
 	for _, child := range children {
+		if child == nil { // a detached operand
+			continue
+		}
+
 		childID := randStr(idLength)
 		childrenIDs = append(childrenIDs, childID)
 
@@ -130,6 +135,8 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
-- 
2.43.0


From 07399a4abf14aafb66dad3193d399bab8e7d69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 20/48] fix: v6 graphviz: write the nodes given as input once,
 apart from the tree's own

---
 v6/pkg/walkers/graphviz/walk.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index c48c1d7..de78a09 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -58,9 +58,6 @@ var labelEscaper = strings.NewReplacer(
 
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
-	if in != "" {
-		in = fmt.Sprintf("%s\n", in)
-	}
 	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
 		nodeID,
 		style,
@@ -78,7 +75,7 @@ func formatOperatorNode(nodeID string, operator string) string {
 }
 
 // handleChildren processes child nodes and returns their formatted string and IDs
-func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error) {
+func handleChildren(children []*tsl.TSLNode) (string, []string, error) {
 	childrenIDs := []string{}
 	result := ""
 
@@ -90,7 +87,7 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 		childID := randStr(idLength)
 		childrenIDs = append(childrenIDs, childID)
 
-		r, err := Walk(in, child, childID)
+		r, err := Walk("", child, childID)
 		if err != nil {
 			return "", nil, err
 		}
@@ -121,6 +118,9 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 	if nodeID == "" {
 		nodeID = randStr(idLength)
 	}
+	if in != "" {
+		in = fmt.Sprintf("%s\n", in)
+	}
 
 	switch n.Type() {
 	case tsl.KindIdentifier:
@@ -141,7 +141,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right})
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Left, expr.Right})
 		if err != nil {
 			return "", err
 		}
@@ -152,7 +152,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right})
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Right})
 		if err != nil {
 			return "", err
 		}
@@ -165,7 +165,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		// Use arrayStyle instead of opStyle for arrays
 		st = strings.Replace(st, opStyle, arrayStyle, 1)
 
-		childrenStr, childrenIDs, err := handleChildren(in, array.Values)
+		childrenStr, childrenIDs, err := handleChildren(array.Values)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From d383a8800e1da13dfc05cd171e829e42afeb990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 21/48] fix: v6 sql: convert dates without a time of day, bind
 timestamps as the instant they denote

---
 v6/pkg/walkers/sql/walk.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..7bf928e 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -42,9 +42,7 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindNumericLiteral:
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
-		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		s = sq.Expr("?", timeArgument(n.Value()))
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
@@ -67,6 +65,18 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	return
 }
 
+// timeArgument formats a date or timestamp using SQL timestamp format, in UTC
+func timeArgument(value interface{}) interface{} {
+	t, ok := value.(time.Time)
+	if !ok {
+		var err error
+		if t, err = time.Parse("2006-01-02", value.(string)); err != nil {
+			return value // looks like a date, but is not one
+		}
+	}
+	return t.UTC().Format("2006-01-02 15:04:05.999999999")
+}
+
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	if n.Type() != tsl.KindArrayLiteral {
-- 
2.43.0


From 735bedf4f5ce934808f54a5fff715131f06163ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 22/48] fix: v6 sql: a detached operand is an error, null
 outside IS is not dropped

---
 v6/pkg/walkers/sql/walk.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 7bf928e..82fa6ef 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -36,6 +36,10 @@ import (
 //
 // Squirrel: https://github.com/Masterminds/squirrel
 func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
+	if n == nil { // a detached operand
+		return nil, tsl.UnexpectedLiteralError{Literal: nil}
+	}
+
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		s = sq.Expr(n.Value().(string))
@@ -56,8 +60,7 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindUnaryExpr:
 		return unaryStep(n)
 	case tsl.KindNullLiteral:
-		// NULL literal is handled as a special case of IS NULL operator
-		s = sq.Expr("")
+		s = sq.Expr("NULL")
 	default:
 		err = tsl.UnexpectedLiteralError{Literal: n.Type()}
 	}
@@ -79,6 +82,9 @@ func timeArgument(value interface{}) interface{} {
 
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
+	if n == nil {
+		return nil, tsl.UnexpectedLiteralError{Literal: nil}
+	}
 	if n.Type() != tsl.KindArrayLiteral {
 		return nil, tsl.UnexpectedTypeError{Type: n.Type()}
 	}
@@ -177,6 +183,9 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 
 	// Null operator
 	case tsl.OpIs:
+		if op.Right.Type() != tsl.KindNullLiteral {
+			return nil, tsl.UnexpectedTypeError{Type: op.Right.Type()}
+		}
 		return sq.Expr("? IS NULL", l), nil
 
 	default:
-- 
2.43.0


From 8253721d4e61776a36bab177babe2d5f4bc1152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 23/48] fix: v6 sql: keep the grouping of comparisons used as
 operands

---
 v6/pkg/walkers/sql/walk.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 82fa6ef..36c2857 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -80,6 +80,24 @@ func timeArgument(value interface{}) interface{} {
 	return t.UTC().Format("2006-01-02 15:04:05.999999999")
 }
 
+// walkOperand walks an operand of a comparison or of an arithmetic operator, in
+// parentheses where SQL precedence would otherwise regroup it
+func walkOperand(n *tsl.TSLNode) (sq.Sqlizer, error) {
+	s, err := Walk(n)
+	if err != nil {
+		return nil, err
+	}
+
+	if n.Type() == tsl.KindBinaryExpr || n.Type() == tsl.KindUnaryExpr {
+		switch n.Value().(tsl.TSLExpressionOp).Operator {
+		case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpUMinus, tsl.OpAnd, tsl.OpOr:
+		default:
+			s = sq.Expr("(?)", s)
+		}
+	}
+	return s, nil
+}
+
 // Helper function to walk array nodes and return values
 func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	if n == nil {
@@ -94,7 +112,7 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	var err error
 
 	for i, node := range array.Values {
-		values[i], err = Walk(node)
+		values[i], err = walkOperand(node)
 		if err != nil {
 			return nil, err
 		}
@@ -107,7 +125,13 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	op := n.Value().(tsl.TSLExpressionOp)
 
-	l, err = Walk(op.Left)
+	// AND and OR put parentheses around themselves, their operands need none
+	walk := walkOperand
+	if op.Operator == tsl.OpAnd || op.Operator == tsl.OpOr {
+		walk = Walk
+	}
+
+	l, err = walk(op.Left)
 	if err != nil {
 		return
 	}
@@ -133,7 +157,7 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 
 	// For non-array operations, handle normally
-	r, err := Walk(op.Right)
+	r, err := walk(op.Right)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 61810f3745fdef0fe0b210b66b439b932378d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 24/48] fix: v4, v5 parser: arithmetic groups by precedence and
 from left to right

a * b + c was read as a * (b + c), a - b - c as a - (b - c) and
a + 2 * b as (a + 2) * b.
---
 v4/pkg/tsl/listener.go | 95 ++++++++++++++++++++++++++++++++++-------
 v5/pkg/tsl/listener.go | 97 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 162 insertions(+), 30 deletions(-)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index 3b27280..599d815 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -20,6 +20,8 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
@@ -78,27 +80,27 @@ func (l *Listener) ExitStringLiteral(c *parser.StringLiteralContext) {
 
 // ExitMulOps is called when production multiply op is exited.
 func (l *Listener) ExitMulOps(c *parser.MulOpsContext) {
-	l.exitMathOps(MultiplyOp)
+	l.exitMathOps(c)
 }
 
 // ExitDivOps is called when production div op is exited.
 func (l *Listener) ExitDivOps(c *parser.DivOpsContext) {
-	l.exitMathOps(DivideOp)
+	l.exitMathOps(c)
 }
 
 // ExitModOps is called when production modulo op is exited.
 func (l *Listener) ExitModOps(c *parser.ModOpsContext) {
-	l.exitMathOps(ModuloOp)
+	l.exitMathOps(c)
 }
 
 // ExitAddOps is called when production add op is exited.
 func (l *Listener) ExitAddOps(c *parser.AddOpsContext) {
-	l.exitMathOps(AddOp)
+	l.exitMathOps(c)
 }
 
 // ExitSubOps is called when production subtract op is exited.
 func (l *Listener) ExitSubOps(c *parser.SubOpsContext) {
-	l.exitMathOps(SubtractOp)
+	l.exitMathOps(c)
 }
 
 // ExitLiteralOps is called when production LiteralOps is exited.
@@ -277,24 +279,77 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 }
 
 // exitMathOps is called when production math operator is exited.
-func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
-
-	// Check right op is not a string.
-	if right.Func == StringOp {
-		l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+//
+// The grammar gives the operand on the right of an operator the rest of the
+// expression, so the operands are collected, in the order they are written,
+// once the outermost operator is exited, and grouped here: multiply, divide and
+// modulo before add and subtract, operators of one kind from left to right.
+func (l *Listener) exitMathOps(c antlr.Tree) {
+	if isMathOps(c.GetParent()) {
 		return
 	}
 
-	n := Node{
-		Func:  op,
-		Left:  left,
-		Right: right,
+	ops := mathOperators(c, nil)
+	operands := l.popNodes(len(ops) + 1)
+
+	// Check right ops are not strings.
+	for _, right := range operands[1:] {
+		if right.Func == StringOp {
+			l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+			return
+		}
+	}
+
+	// Group the multiply, divide and modulo operators.
+	terms := []Node{operands[0]}
+	adds := []string{}
+	for i, op := range ops {
+		right := operands[i+1]
+		if op == AddOp || op == SubtractOp {
+			terms = append(terms, right)
+			adds = append(adds, op)
+			continue
+		}
+		last := len(terms) - 1
+		terms[last] = Node{Func: op, Left: terms[last], Right: right}
+	}
+
+	// Group the add and subtract operators.
+	n := terms[0]
+	for i, op := range adds {
+		n = Node{Func: op, Left: n, Right: terms[i+1]}
 	}
 
 	l.push(n)
 }
 
+// isMathOps checks if a parse tree node is a math operator, or an operand of one.
+func isMathOps(t antlr.Tree) bool {
+	switch t.(type) {
+	case *parser.MulOpsContext, *parser.DivOpsContext, *parser.ModOpsContext,
+		*parser.AddOpsContext, *parser.SubOpsContext:
+		return true
+	}
+
+	return false
+}
+
+// mathOperators collects the operators of a math expression in the order they
+// are written. An expression in parentheses is an operand.
+func mathOperators(t antlr.Tree, ops []string) []string {
+	switch c := t.(type) {
+	case antlr.TerminalNode:
+		ops = append(ops, opDic[c.GetText()])
+	case *parser.MulOpsContext, *parser.DivOpsContext, *parser.ModOpsContext,
+		*parser.AddOpsContext, *parser.SubOpsContext:
+		for _, child := range t.GetChildren() {
+			ops = mathOperators(child, ops)
+		}
+	}
+
+	return ops
+}
+
 // ExitColumnIdentifier is called when exiting a literal production.
 func (l *Listener) exitLiteral(f string, v interface{}) {
 	n := Node{Func: f, Left: v}
@@ -325,6 +380,16 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 	return in
 }
 
+// popNodes pops n nodes, and returns them in the order they were pushed.
+func (l *Listener) popNodes(n int) []Node {
+	nodes := make([]Node, n)
+	for i := n - 1; i >= 0; i-- {
+		nodes[i] = l.pop()
+	}
+
+	return nodes
+}
+
 // push is a helper function for pushing new node to the listener Stack.
 func (l *Listener) push(i Node) {
 	l.Stack = append(l.Stack, i)
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..c6e5160 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -22,6 +22,8 @@ import (
 	"strings"
 	"time"
 
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
@@ -147,27 +149,27 @@ func (l *Listener) ExitShortDateLiteral(c *parser.ShortDateLiteralContext) {
 
 // ExitMulOps is called when production multiply op is exited.
 func (l *Listener) ExitMulOps(c *parser.MulOpsContext) {
-	l.exitMathOps(MultiplyOp)
+	l.exitMathOps(c)
 }
 
 // ExitDivOps is called when production div op is exited.
 func (l *Listener) ExitDivOps(c *parser.DivOpsContext) {
-	l.exitMathOps(DivideOp)
+	l.exitMathOps(c)
 }
 
 // ExitModOps is called when production modulo op is exited.
 func (l *Listener) ExitModOps(c *parser.ModOpsContext) {
-	l.exitMathOps(ModuloOp)
+	l.exitMathOps(c)
 }
 
 // ExitAddOps is called when production add op is exited.
 func (l *Listener) ExitAddOps(c *parser.AddOpsContext) {
-	l.exitMathOps(AddOp)
+	l.exitMathOps(c)
 }
 
 // ExitSubOps is called when production subtract op is exited.
 func (l *Listener) ExitSubOps(c *parser.SubOpsContext) {
-	l.exitMathOps(SubtractOp)
+	l.exitMathOps(c)
 }
 
 // ExitLiteralOps is called when production LiteralOps is exited.
@@ -346,24 +348,79 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 }
 
 // exitMathOps is called when production math operator is exited.
-func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
-
-	// Check right op is not a string.
-	if right.Func == StringOp {
-		l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+//
+// The grammar gives the operand on the right of an operator the rest of the
+// expression, so the operands are collected, in the order they are written,
+// once the outermost operator is exited, and grouped here: multiply, divide and
+// modulo before add and subtract, operators of one kind from left to right.
+func (l *Listener) exitMathOps(c antlr.Tree) {
+	if isMathOps(c.GetParent()) {
 		return
 	}
 
-	n := Node{
-		Func:  op,
-		Left:  left,
-		Right: right,
+	ops := mathOperators(c, nil)
+	operands := l.popNodes(len(ops) + 1)
+
+	// Check right ops are not strings.
+	for _, right := range operands[1:] {
+		if right.Func == StringOp {
+			l.Errs = append(l.Errs, UnexpectedLiteralError{ExpectedType: "float", Literal: right.Left})
+			return
+		}
+	}
+
+	// Group the multiply, divide and modulo operators.
+	terms := []Node{operands[0]}
+	adds := []string{}
+	for i, op := range ops {
+		right := operands[i+1]
+		if op == AddOp || op == SubtractOp {
+			terms = append(terms, right)
+			adds = append(adds, op)
+			continue
+		}
+		last := len(terms) - 1
+		terms[last] = Node{Func: op, Left: terms[last], Right: right}
+	}
+
+	// Group the add and subtract operators.
+	n := terms[0]
+	for i, op := range adds {
+		n = Node{Func: op, Left: n, Right: terms[i+1]}
 	}
 
 	l.push(n)
 }
 
+// isMathOps checks if a parse tree node is a math operator, or an operand of one.
+func isMathOps(t antlr.Tree) bool {
+	switch t.(type) {
+	case *parser.MulOpsContext, *parser.DivOpsContext, *parser.ModOpsContext,
+		*parser.AddOpsContext, *parser.SubOpsContext:
+		return true
+	case *parser.LiteralOrMathContext:
+		return isMathOps(t.GetParent())
+	}
+
+	return false
+}
+
+// mathOperators collects the operators of a math expression in the order they
+// are written. An expression in parentheses is an operand.
+func mathOperators(t antlr.Tree, ops []string) []string {
+	switch c := t.(type) {
+	case antlr.TerminalNode:
+		ops = append(ops, opDic[c.GetText()])
+	case *parser.MulOpsContext, *parser.DivOpsContext, *parser.ModOpsContext,
+		*parser.AddOpsContext, *parser.SubOpsContext, *parser.LiteralOrMathContext:
+		for _, child := range t.GetChildren() {
+			ops = mathOperators(child, ops)
+		}
+	}
+
+	return ops
+}
+
 // ExitColumnIdentifier is called when exiting a literal production.
 func (l *Listener) exitLiteral(f string, v interface{}) {
 	n := Node{Func: f, Left: v}
@@ -394,6 +451,16 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 	return in
 }
 
+// popNodes pops n nodes, and returns them in the order they were pushed.
+func (l *Listener) popNodes(n int) []Node {
+	nodes := make([]Node, n)
+	for i := n - 1; i >= 0; i-- {
+		nodes[i] = l.pop()
+	}
+
+	return nodes
+}
+
 // push is a helper function for pushing new node to the listener Stack.
 func (l *Listener) push(i Node) {
 	l.Stack = append(l.Stack, i)
-- 
2.43.0


From 1c6293b1737d546108de40bae84cc150e4dc4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 25/48] fix: v4, v5 parser: IN keeps the order of its list, and
 v5 takes dates and booleans in it

---
 v4/pkg/tsl/listener.go | 17 +----------------
 v5/pkg/tsl/listener.go | 17 +----------------
 2 files changed, 2 insertions(+), 32 deletions(-)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index 599d815..c21840c 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -209,7 +209,7 @@ func (l *Listener) ExitIsNull(c *parser.IsNullContext) {
 func (l *Listener) ExitIn(c *parser.InContext) {
 	right := Node{
 		Func:  ArrayOp,
-		Right: l.popLiterals([]Node{}),
+		Right: l.popNodes(len(c.AllLiteralValue())),
 	}
 	left := l.pop()
 	op := ternaryOp(c.KeyNot() == nil, InOp, NotInOp)
@@ -365,21 +365,6 @@ func ternaryOp(conditional bool, lh string, rh string) string {
 	return rh
 }
 
-// popLiterals collect literal values, and create args list.
-func (l *Listener) popLiterals(in []Node) (out []Node) {
-	// Get a literal from stack.
-	p := l.pop()
-
-	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
-		return l.popLiterals(append(in, p))
-	}
-
-	// If p is not a literal, add it back to stack and exit.
-	l.push(p)
-	return in
-}
-
 // popNodes pops n nodes, and returns them in the order they were pushed.
 func (l *Listener) popNodes(n int) []Node {
 	nodes := make([]Node, n)
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index c6e5160..b2ebfde 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -278,7 +278,7 @@ func (l *Listener) ExitIsNull(c *parser.IsNullContext) {
 func (l *Listener) ExitIn(c *parser.InContext) {
 	right := Node{
 		Func:  ArrayOp,
-		Right: l.popLiterals([]Node{}),
+		Right: l.popNodes(len(c.AllLiteralValue())),
 	}
 	left := l.pop()
 	op := ternaryOp(c.KeyNot() == nil, InOp, NotInOp)
@@ -436,21 +436,6 @@ func ternaryOp(conditional bool, lh string, rh string) string {
 	return rh
 }
 
-// popLiterals collect literal values, and create args list.
-func (l *Listener) popLiterals(in []Node) (out []Node) {
-	// Get a literal from stack.
-	p := l.pop()
-
-	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
-		return l.popLiterals(append(in, p))
-	}
-
-	// If p is not a literal, add it back to stack and exit.
-	l.push(p)
-	return in
-}
-
 // popNodes pops n nodes, and returns them in the order they were pushed.
 func (l *Listener) popNodes(n int) []Node {
 	nodes := make([]Node, n)
-- 
2.43.0


From 738487cb4f1fb064f7686220447a731421d4cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 26/48] fix: v5 parser: a number whose unit suffix takes it out
 of range is an error

---
 v5/pkg/tsl/listener.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index b2ebfde..c257ea5 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -104,6 +104,11 @@ func (l *Listener) ExitNumberLiteral(c *parser.NumberLiteralContext) {
 		l.Errs = append(l.Errs, err)
 	}
 
+	// Check that the multiplied value can be represented.
+	if err == nil && math.IsInf(f*multiplier, 0) {
+		l.Errs = append(l.Errs, fmt.Errorf("number out of range: %s", c.SignedNumber().GetText()))
+	}
+
 	l.exitLiteral(NumberOp, f*multiplier)
 }
 
-- 
2.43.0


From a8ba8354e5b73f08f71f6ce215fe8f1b122f7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 27/48] fix: v4, v5 parser: serialize ParseTSL, the antlr
 runtime's shared caches are not safe for concurrent use

---
 v4/pkg/tsl/tsl.go | 9 +++++++++
 v5/pkg/tsl/tsl.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..d1dd33d 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parseLock serializes parsing: the antlr runtime shares the lookahead caches of
+// the lexer and the parser between all their instances, without locking them.
+var parseLock sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseLock.Lock()
+	defer parseLock.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..644af96 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parseLock serializes parsing: the antlr runtime shares the lookahead caches of
+// the lexer and the parser between all their instances, without locking them.
+var parseLock sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseLock.Lock()
+	defer parseLock.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
-- 
2.43.0


From 8372bea46cded6d70f17620ed9ff4fe16a555bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 28/48] fix: v5 semantics: evaluate nested arithmetic and
 modulo

(net.rx + net.tx) / 1000 > 3, an example of the README, was an error.
---
 v5/pkg/walkers/semantics/walk.go | 52 +++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..51e1153 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 	"time"
@@ -83,7 +84,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if isMathOp(l) {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +106,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if isMathOp(r) {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,24 +287,36 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
-func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
-	var err error
+func isMathOp(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
 
-	left := n.Left.(tsl.Node)
-	right := n.Right.(tsl.Node)
+	return false
+}
 
-	// Check for identifiers.
-	if left.Func == tsl.IdentOp {
-		left, err = evalIdentNode(left, eval)
-		if err != nil {
-			return n, err
-		}
+// evalMathOperand gets the value of a math operator operand, an operand can be
+// an identifier, a literal or another math operator.
+func evalMathOperand(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	switch {
+	case n.Func == tsl.IdentOp:
+		return evalIdentNode(n, eval)
+	case isMathOp(n):
+		return handleMathOp(n, eval)
 	}
-	if right.Func == tsl.IdentOp {
-		right, err = evalIdentNode(right, eval)
-		if err != nil {
-			return n, err
-		}
+
+	return n, nil
+}
+
+func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	left, err := evalMathOperand(n.Left.(tsl.Node), eval)
+	if err != nil {
+		return n, err
+	}
+	right, err := evalMathOperand(n.Right.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
 
 	// Check for null
@@ -341,6 +354,11 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 			Func: tsl.NumberOp,
 			Left: left.Left.(float64) / right.Left.(float64),
 		}
+	case tsl.ModuloOp:
+		n = tsl.Node{
+			Func: tsl.NumberOp,
+			Left: math.Mod(left.Left.(float64), right.Left.(float64)),
+		}
 	default:
 		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v %v", left.Left, right.Left)}
 	}
-- 
2.43.0


From 3ae12dfa329702c933fca9e36524ec17c52418d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 29/48] fix: v4, v5 semantics: BETWEEN includes its upper
 bound, as it does in the SQL and mongo walkers

---
 v4/pkg/walkers/semantics/walk.go |  8 ++++----
 v5/pkg/walkers/semantics/walk.go | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..06a81f5 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -277,11 +277,11 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -310,11 +310,11 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 51e1153..884e156 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -578,7 +578,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(string)
 		if !ok {
@@ -588,7 +588,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -631,7 +631,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(float64)
 		if !ok {
@@ -641,7 +641,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return !left.Before(begin) && left.Before(end), nil
+		return !left.Before(begin) && !left.After(end), nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(time.Time)
 		if !ok {
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left.Before(begin) || !left.Before(end), nil
+		return left.Before(begin) || left.After(end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From 02f588881e79759f2ce3b95fd6e7a7d0c548cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 30/48] fix: v5 semantics: dates are equal when they are the
 same instant, whatever their offsets

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 884e156..e856867 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -473,9 +473,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -702,7 +702,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -712,7 +712,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From f39953efa4c9bde70a4abf47b4f603e3dcce9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 31/48] fix: v4, v5 semantics: the wildcards of LIKE and ILIKE
 match line breaks too

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 06a81f5..46f5ecc 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index e856867..6f7e544 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -758,7 +758,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From c3da9f6a85f932b8ec64a40372b4bdfe0729ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 32/48] fix: v4, v5 semantics: no panic on lists of mixed
 literals (v4) or a list field on the right of an operator (v5)

---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 v5/pkg/walkers/semantics/walk.go |  4 ++
 2 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 46f5ecc..984f7b8 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == s
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != s
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == f
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != f
 		}
 		return b, nil
 	}
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 6f7e544..d7ade0d 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -131,6 +131,10 @@ func runSemantics(n tsl.Node, eval EvalFunc) (bool, error) {
 			// Any comparison operation on a null element is false.
 			return false, nil
 		}
+		if r.Func == tsl.ArrayOp && r.Right == nil && l.Func != tsl.NullOp {
+			// This is a list field of the document, and not a list of literals.
+			return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+		}
 
 		switch l.Func {
 		case tsl.ArrayOp:
-- 
2.43.0


From f139dc84a003be3d28ab5095a30c1d085cdb70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 33/48] fix: v4 semantics: IS NULL on arithmetic, which is not
 supported, is an error and not an answer

---
 v4/pkg/walkers/semantics/walk.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 984f7b8..f104136 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -108,10 +108,14 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
-	case tsl.IsNotNilOp:
-		return l.Func != tsl.NullOp, nil
-	case tsl.IsNilOp:
-		return l.Func == tsl.NullOp, nil
+	case tsl.IsNotNilOp, tsl.IsNilOp:
+		switch l.Func {
+		case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+			// Math operators are not supported.
+			return false, tsl.UnexpectedLiteralError{Literal: l.Func}
+		}
+
+		return (l.Func == tsl.NullOp) == (n.Func == tsl.IsNilOp), nil
 	case tsl.AndOp, tsl.OrOp:
 		return handleLogicalOp(n, eval)
 	case tsl.NotOp:
-- 
2.43.0


From 57b5a30319c92cb79dc1a0ce56ee5ec7c6d8cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 34/48] fix: v5 sql: dates keep their fraction of a second, and
 are quoted inside arithmetic

---
 v5/pkg/walkers/sql/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..e731d2c 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -189,8 +189,8 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		f := n.Left.(time.Time).Format(time.RFC3339Nano)
+		s = sq.Expr(fmt.Sprintf("'%s'", f))
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.BooleanOp:
-- 
2.43.0


From ca38eb2d93901670a1853dd648524b987c439849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 35/48] fix: v5 sql: an identifier or arithmetic on the right
 of a comparison is SQL, not a bound text

---
 v5/pkg/walkers/sql/walk.go | 53 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index e731d2c..7fa58bd 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -105,6 +105,54 @@ func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// compareOps maps the operators that can compare two SQL expressions.
+var compareOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+}
+
+// isExpression checks if a right hand side is an identifier or a math operator.
+func isExpression(in interface{}) bool {
+	n, ok := in.(tsl.Node)
+	if !ok {
+		return false
+	}
+
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
+// compareStep handle a comparison of two SQL expressions.
+func compareStep(n tsl.Node, left string) (s sq.Sqlizer, err error) {
+	op, ok := compareOps[n.Func]
+	if !ok {
+		// If here than the operator is not supported.
+		err = tsl.UnexpectedLiteralError{Literal: n.Func}
+		return
+	}
+
+	r, err := Walk(n.Right.(tsl.Node))
+	if err != nil {
+		return
+	}
+
+	right, args, err := r.ToSql()
+	if err != nil {
+		return
+	}
+
+	s = sq.Expr(fmt.Sprintf("%s %s %s", left, op, right), args...)
+	return
+}
+
 // unaryStep handle a unary operator step for Walk.
 func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
@@ -120,6 +168,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// A right hand side that is not a literal is part of the SQL expression.
+	if isExpression(n.Right) {
+		return compareStep(n, sql)
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
-- 
2.43.0


From 1e5db1f8254429b1672324fafd48263fd69436e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 36/48] fix: v4, v5 mongo: what a filter can not express is an
 error

Arithmetic gave a filter on the field with no name, and in v5 an identifier on
the right its name as a text. An empty IN list gave null and not a list. In v5
a quoted name starting with $ became a mongo operator.
---
 v4/pkg/walkers/mongo/walk.go | 45 +++++++++++++++++---------
 v5/pkg/walkers/mongo/walk.go | 61 +++++++++++++++++++++++++++---------
 2 files changed, 76 insertions(+), 30 deletions(-)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..6586b90 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -23,15 +23,20 @@ import (
 	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+//
+// Mongo filters can only compare fields, and a name starting with "$" is a
+// mongo operator and not a field.
+func identString(in interface{}) (string, error) {
+	n := in.(tsl.Node)
+
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	if str, ok := n.Left.(string); ok && n.Func == tsl.IdentOp && str != "" && str[0] != '$' {
+		return str, nil
 	}
 
 	// This is not an identifier.
-	return ""
+	return "", tsl.UnexpectedLiteralError{Literal: n.Left}
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -46,6 +51,7 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
@@ -79,6 +85,15 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
+	var name string
+
+	// Get the field name, and'or operators have expressions on both sides.
+	if n.Func != tsl.OrOp && n.Func != tsl.AndOp && n.Func != tsl.NotOp {
+		name, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+	}
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
@@ -96,21 +111,21 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		b = bson.D{{name, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{name, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		b = bson.D{{name, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		b = bson.D{{name, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		b = bson.D{{name, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
+		b = bson.D{{name,
 			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
@@ -122,8 +137,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{name, bson.D{{"$gte", values[0]}}}},
+				bson.D{{name, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
 		// Mongo does not have a between function, translating sql's not between into
@@ -134,8 +149,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{name, bson.D{{"$lt", values[0]}}}},
+				bson.D{{name, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..0f8b368 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -23,15 +23,30 @@ import (
 	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+//
+// Mongo filters can only compare fields, and a name starting with "$" is a
+// mongo operator and not a field.
+func identString(in interface{}) (string, error) {
+	n := in.(tsl.Node)
+
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	if str, ok := n.Left.(string); ok && n.Func == tsl.IdentOp && str != "" && str[0] != '$' {
+		return str, nil
 	}
 
 	// This is not an identifier.
-	return ""
+	return "", tsl.UnexpectedLiteralError{Literal: n.Left}
+}
+
+// isExpression checks if a node is an identifier or a math operator.
+func isExpression(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -46,6 +61,7 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
@@ -79,6 +95,21 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
+	var name string
+
+	// Get the field name, and'or operators have expressions on both sides.
+	if n.Func != tsl.OrOp && n.Func != tsl.AndOp && n.Func != tsl.NotOp {
+		name, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+	}
+
+	// Mongo filters can only compare a field with a literal value.
+	if right, ok := n.Right.(tsl.Node); ok && isExpression(right) {
+		err = tsl.UnexpectedLiteralError{Literal: right.Func}
+		return
+	}
 
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
@@ -96,21 +127,21 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		b = bson.D{{name, bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
 	case tsl.InOp, tsl.NotInOp:
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{name, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		b = bson.D{{name, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		b = bson.D{{name, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		b = bson.D{{name, primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
+		b = bson.D{{name,
 			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
 	case tsl.BetweenOp:
 		// Mongo does not have a between function, translating sql's between into
@@ -122,8 +153,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{name, bson.D{{"$gte", values[0]}}}},
+				bson.D{{name, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
 		// Mongo does not have a between function, translating sql's not between into
@@ -134,8 +165,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{name, bson.D{{"$lt", values[0]}}}},
+				bson.D{{name, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
-- 
2.43.0


From 4bf20b6ced5b6d735a541b5674ec88a49017e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 37/48] fix: v4, v5 graphviz: escape the characters of a label
 that dot would interpret

---
 v4/pkg/walkers/graphviz/walk.go | 8 ++++++--
 v5/pkg/walkers/graphviz/walk.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..77e9611 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -33,6 +33,10 @@ const numberStyle = "shape=record color=blue"
 const stringStyle = "shape=record color=blue"
 const opStyle = "shape=box color=black"
 
+// labelEscaper escapes the characters that have a meaning in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`)
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -77,7 +81,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,7 +89,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..1a8f187 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -34,6 +34,10 @@ const stringStyle = "shape=record color=blue"
 const dateStyle = "shape=record color=orange"
 const opStyle = "shape=box color=black"
 
+// labelEscaper escapes the characters that have a meaning in a record label.
+var labelEscaper = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`)
+
 // Generate a random string.
 func randStr(l int) string {
 	bytes := make([]byte, l)
@@ -78,7 +82,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,7 +90,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			labelEscaper.Replace(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-- 
2.43.0


From a38234c086f9bfef888817505cea4e2443ab7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 38/48] fix: v4, v5 graphviz: node IDs that do not collide and
 are not dot keywords

---
 v4/pkg/walkers/graphviz/walk.go | 9 ++++++---
 v5/pkg/walkers/graphviz/walk.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 77e9611..dc8deeb 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -27,6 +27,9 @@ import (
 // Character poll for random string genrator.
 const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 
+// idLength makes node IDs unique in practice, and longer than any dot keyword.
+const idLength = 16
+
 // Default styles for .dot file output.
 const identStyle = "shape=record color=red"
 const numberStyle = "shape=record color=blue"
@@ -66,7 +69,7 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	// If we have in string, add a new line break.
@@ -109,7 +112,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -132,7 +135,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index 1a8f187..e08a269 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -27,6 +27,9 @@ import (
 // Character poll for random string genrator.
 const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 
+// idLength makes node IDs unique in practice, and longer than any dot keyword.
+const idLength = 16
+
 // Default styles for .dot file output.
 const identStyle = "shape=record color=red"
 const numberStyle = "shape=record color=blue"
@@ -67,7 +70,7 @@ func randStr(l int) string {
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = randStr(idLength)
 	}
 
 	// If we have in string, add a new line break.
@@ -118,7 +121,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
 			l, err := Walk(in, n.Left.(tsl.Node), leftID)
@@ -141,7 +144,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
 				r, err := Walk(in, v, rightID)
-- 
2.43.0


From 7f269bf8cd88c7d718ccfadb0489a922ba730548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 39/48] fix: v4, v5 graphviz: the text before the drawing
 appears once

---
 v4/pkg/walkers/graphviz/walk.go | 4 ++--
 v5/pkg/walkers/graphviz/walk.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index dc8deeb..9e384dd 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -115,7 +115,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -138,7 +138,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index e08a269..a4d9b10 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -124,7 +124,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(idLength)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -147,7 +147,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(idLength)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From 23dd4fefa94fe4b3bcff2adeeff2ba262e5f5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 40/48] fix: v5 tsl_gorm: on_loan names its column

---
 v5/cmd/tsl_gorm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..6d0ec9f 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 5b1efc99f7be4a506a04847459e3ffce521153db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 41/48] fix: v5 tsl_mongo: on_loan names the field the tool
 stores

---
 v5/cmd/tsl_mongo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..a27dfa2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 312720d547b438a5ce5e5bd2d233a7d8af075ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 42/48] fix: v4, v5 sql: write whole numbers in arithmetic as
 floats

'a + 1 / 2 > 3' was turned into 'a + (1 / 2) > ?': databases divide the two
integers as integers, while numbers in TSL are floats.
---
 v4/pkg/walkers/sql/walk.go | 6 ++++++
 v5/pkg/walkers/sql/walk.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/v4/pkg/walkers/sql/walk.go b/v4/pkg/walkers/sql/walk.go
index de25a97..29566bb 100644
--- a/v4/pkg/walkers/sql/walk.go
+++ b/v4/pkg/walkers/sql/walk.go
@@ -19,6 +19,7 @@ package sql
 import (
 	"fmt"
 	"strconv"
+	"strings"
 
 	sq "github.com/Masterminds/squirrel"
 
@@ -173,7 +174,12 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IdentOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.NumberOp:
+		// Numbers are floats, write whole numbers as such: most databases divide
+		// two integers as integers.
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
+		if !strings.ContainsAny(f, ".e") {
+			f += ".0"
+		}
 		s = sq.Expr(f)
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 7fa58bd..b611cf9 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -19,6 +19,7 @@ package sql
 import (
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 
 	sq "github.com/Masterminds/squirrel"
@@ -239,7 +240,12 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 	case tsl.IdentOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.NumberOp:
+		// Numbers are floats, write whole numbers as such: most databases divide
+		// two integers as integers.
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
+		if !strings.ContainsAny(f, ".e") {
+			f += ".0"
+		}
 		s = sq.Expr(f)
 	case tsl.DateOp:
 		f := n.Left.(time.Time).Format(time.RFC3339Nano)
-- 
2.43.0


From f3a927a5bded4ff1550ddd890f40d00359474fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:13 +0000
Subject: [PATCH 43/48] fix: v4, v5 tsl_parser: refuse an unknown output format

---
 v4/cmd/tsl_parser/main.go | 2 ++
 v5/cmd/tsl_parser/main.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/v4/cmd/tsl_parser/main.go b/v4/cmd/tsl_parser/main.go
index ad9dbb3..75c190c 100644
--- a/v4/cmd/tsl_parser/main.go
+++ b/v4/cmd/tsl_parser/main.go
@@ -84,6 +84,8 @@ func main() {
 			s = append(s, fmt.Sprintf("sql:  %s\n", sql)...)
 			s = append(s, fmt.Sprintf("args: %v", args)...)
 		}
+	default:
+		err = fmt.Errorf("unsuported output format: %s", *outputPtr)
 	}
 
 	check(err)
diff --git a/v5/cmd/tsl_parser/main.go b/v5/cmd/tsl_parser/main.go
index 5d8059b..b230a85 100644
--- a/v5/cmd/tsl_parser/main.go
+++ b/v5/cmd/tsl_parser/main.go
@@ -84,6 +84,8 @@ func main() {
 			s = append(s, fmt.Sprintf("sql:  %s\n", sql)...)
 			s = append(s, fmt.Sprintf("args: %v", args)...)
 		}
+	default:
+		err = fmt.Errorf("unsuported output format: %s", *outputPtr)
 	}
 
 	check(err)
-- 
2.43.0


From 363a49c3a93ddacfc11186e541682b278574978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 44/48] fix: v4, v5 tsl_graphql: close the database of a
 request

---
 v4/cmd/tsl_graphql/main.go  | 6 ++++--
 v4/cmd/tsl_graphql/model.go | 7 ++++---
 v5/cmd/tsl_graphql/main.go  | 6 ++++--
 v5/cmd/tsl_graphql/model.go | 7 ++++---
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/v4/cmd/tsl_graphql/main.go b/v4/cmd/tsl_graphql/main.go
index 56df830..df158b7 100644
--- a/v4/cmd/tsl_graphql/main.go
+++ b/v4/cmd/tsl_graphql/main.go
@@ -96,10 +96,11 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
 	if err != nil {
 		return nil, err
 	}
+	defer db.Close()
 	defer tx.Commit()
 
 	// Parse input string into a TSL tree.
@@ -167,13 +168,14 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
 		tx.Commit()
+		db.Close()
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
diff --git a/v4/cmd/tsl_graphql/model.go b/v4/cmd/tsl_graphql/model.go
index 2ddf90b..dc6f288 100644
--- a/v4/cmd/tsl_graphql/model.go
+++ b/v4/cmd/tsl_graphql/model.go
@@ -35,13 +35,14 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
 	check(err)
 
 	tx, err = db.BeginTx(ctx, nil)
+	if err != nil {
+		db.Close()
+	}
 
 	return
 }
diff --git a/v5/cmd/tsl_graphql/main.go b/v5/cmd/tsl_graphql/main.go
index 4f161b4..a26f0f0 100644
--- a/v5/cmd/tsl_graphql/main.go
+++ b/v5/cmd/tsl_graphql/main.go
@@ -100,10 +100,11 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
 	if err != nil {
 		return nil, err
 	}
+	defer db.Close()
 	defer tx.Commit()
 
 	// Parse input string into a TSL tree.
@@ -172,13 +173,14 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
 		tx.Commit()
+		db.Close()
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
diff --git a/v5/cmd/tsl_graphql/model.go b/v5/cmd/tsl_graphql/model.go
index c4d72f1..dd92b55 100644
--- a/v5/cmd/tsl_graphql/model.go
+++ b/v5/cmd/tsl_graphql/model.go
@@ -36,13 +36,14 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
 	check(err)
 
 	tx, err = db.BeginTx(ctx, nil)
+	if err != nil {
+		db.Close()
+	}
 
 	return
 }
-- 
2.43.0


From c84143e3bd60971bbe280b5912483711d2008128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 45/48] fix: v6 tsl: print the fraction of a second of a
 timestamp

---
 v6/cmd/tsl/printer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/cmd/tsl/printer.go b/v6/cmd/tsl/printer.go
index 52da3b6..89e58de 100644
--- a/v6/cmd/tsl/printer.go
+++ b/v6/cmd/tsl/printer.go
@@ -96,8 +96,8 @@ func (p *ASTPrinter) printTimestamp(node *tsl.TSLNode, level int) {
 	}
 
 	// Format with timezone offset but no timezone name
-	// 2006-01-02T15:04:05-07:00 is the Go layout for RFC3339 without timezone name
-	formattedTime := timestamp.Format("2006-01-02T15:04:05-07:00")
+	// 2006-01-02T15:04:05.999999999-07:00 is the Go layout for RFC3339 without timezone name
+	formattedTime := timestamp.Format("2006-01-02T15:04:05.999999999-07:00")
 	p.printIndented(level, "[%s]: %s\n", node.Type().String(), formattedTime)
 }
 
-- 
2.43.0


From 4e5fe2ed1089afd0be5bf52feb771ca3573261e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 46/48] fix: v4, v5 parser: report the first syntax error, not
 the last that follows from it

---
 v4/pkg/tsl/error_listener.go | 6 +++++-
 v5/pkg/tsl/error_listener.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/tsl/error_listener.go b/v4/pkg/tsl/error_listener.go
index 1c4af57..19e710e 100644
--- a/v4/pkg/tsl/error_listener.go
+++ b/v4/pkg/tsl/error_listener.go
@@ -38,5 +38,9 @@ func (d *ErrorListener) SyntaxError(
 	msg string,
 	e antlr.RecognitionException) {
 
-	d.Err = ParseError{line: line, column: column, msg: msg}
+	// Keep the first error, the parser recovers and may report errors that
+	// follow from it, in other places.
+	if d.Err == nil {
+		d.Err = ParseError{line: line, column: column, msg: msg}
+	}
 }
diff --git a/v5/pkg/tsl/error_listener.go b/v5/pkg/tsl/error_listener.go
index 1c4af57..19e710e 100644
--- a/v5/pkg/tsl/error_listener.go
+++ b/v5/pkg/tsl/error_listener.go
@@ -38,5 +38,9 @@ func (d *ErrorListener) SyntaxError(
 	msg string,
 	e antlr.RecognitionException) {
 
-	d.Err = ParseError{line: line, column: column, msg: msg}
+	// Keep the first error, the parser recovers and may report errors that
+	// follow from it, in other places.
+	if d.Err == nil {
+		d.Err = ParseError{line: line, column: column, msg: msg}
+	}
 }
-- 
2.43.0


From c56d7c3e2485b045ac4d60be52ae8fc66e596d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:33 +0000
Subject: [PATCH 47/48] fix: v6: a timestamp is drawn the same in every time
 zone

time.Parse names the offset of a timestamp after the local zone when the two
agree, and the drawing shows that name.
---
 v6/pkg/tsl/tsl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 691ff02..b9c4e46 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -130,7 +130,7 @@ func (n *TSLNode) Value() interface{} {
 	case KindDateLiteral, KindTimestampLiteral:
 		// Parse date strings into time.Time
 		dateStr := C.GoString(C.get_string_value(n.cNode))
-		if t, err := time.Parse(time.RFC3339, dateStr); err == nil {
+		if t, err := time.ParseInLocation(time.RFC3339, dateStr, time.UTC); err == nil {
 			return t
 		}
 		// Fallback to returning raw string if parsing fails
-- 
2.43.0


From 6e66e60289e0ada17802b9cda3bc439b20ae4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:33 +0000
Subject: [PATCH 48/48] fix: v5: a timestamp is drawn the same in every time
 zone

time.Parse names the offset of a timestamp after the local zone when the two
agree, and the drawing shows that name.
---
 v5/pkg/tsl/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index c257ea5..77b12ba 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -133,7 +133,7 @@ func (l *Listener) ExitBooleanLiteral(c *parser.BooleanLiteralContext) {
 // ExitDateLiteral is called when exiting the DateLiteral production.
 func (l *Listener) ExitDateLiteral(c *parser.DateLiteralContext) {
 	s := c.GetRuleContext().GetText()
-	t, err := time.Parse(time.RFC3339, s)
+	t, err := time.ParseInLocation(time.RFC3339, s, time.UTC)
 	if err != nil {
 		l.Errs = append(l.Errs, err)
 	}
-- 
2.43.0

