From ba2a8cbeba0c6a0f6a09024f3b137c6284603909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 01/46] fix: tokenize characters that start no lexeme instead
 of returning nil

---
 token/tokenizer.go |  1 +
 token/type.go      |  2 ++
 token/unknown.go   | 12 ++++++++++++
 3 files changed, 15 insertions(+)
 create mode 100644 token/unknown.go

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..5bc95df 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessUnknown,
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..e1e81c9 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Unknown // characters that start no lexeme, unterminated strings
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Unknown:             "unknown",
 }
 
 func (t Type) String() string {
diff --git a/token/unknown.go b/token/unknown.go
new file mode 100644
index 0000000..3241b88
--- /dev/null
+++ b/token/unknown.go
@@ -0,0 +1,12 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessUnknown makes a token of a character which starts no lexeme.
+func ProcessUnknown(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Unknown, c.Text, start, c.Position.Clone())
+}
-- 
2.43.0


From fdf810a3b7d8a3ef902ef7ec6c746d2d925ca15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:55 +0000
Subject: [PATCH 02/46] fix: do not loop forever on an unterminated string

---
 token/string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..0e23111 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,6 +11,10 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
+			if r == runes.CursorEOF {
+				// The string is not terminated
+				return NewToken(Unknown, c.Text, start, c.Position.Clone())
+			}
 			if last != '\\' && r == '\'' {
 				break
 			}
-- 
2.43.0


From 10f5c824fca9f6a9b294b964693b7ee91a39e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:57 +0000
Subject: [PATCH 03/46] fix: (*) opens a comment but doesn't close it

---
 token/comment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/comment.go b/token/comment.go
index 70b3293..91f0fc3 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -30,6 +30,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '(':
 		if c.Seek(1) == '*' {
 			start := c.Position.Clone()
+			c.Next() // The * of the opener doesn't close the comment
 			for {
 				r := c.Next()
 				if r == '*' && c.Seek(1) == ')' {
-- 
2.43.0


From ca9933d410e1e3a2dca42c9cdc5dd6bc5414baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 04/46] fix: count a line feed that parser look-ahead went back
 over

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 8127b65fc92fe8e9bef9f758190722873c1e5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 05/46] fix: stop at the end of the file in an assembler
 statement

---
 parser/statement_asm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..a53b46d 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -14,12 +14,14 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 
 	log.Printf("ParseAssemblerStatement start")
 
-	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
-			p.NextToken()
-			break
+	kwEnd := token.ReservedWord.HasKeyword("END")
+	for !p.CurrentToken().Is(kwEnd) {
+		if p.CurrentToken().Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END but was %s", p.CurrentToken())
 		}
+		p.NextToken()
 	}
+	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement done")
 
-- 
2.43.0


From 39be6fc9df58471069b01daea38a4c8271ed602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:40 +0000
Subject: [PATCH 06/46] fix: keep the exports statements before the block body
 apart from those after it

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From 1673670da0bc272ecc3f4330fe6a0f36714064dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:42 +0000
Subject: [PATCH 07/46] fix: report an error for a reserved word which is not a
 type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..b671522 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported Type token %s", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From bc489942ec064315a75c53b3b3436fc4380dc6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:44 +0000
Subject: [PATCH 08/46] fix: accept a number after INDEX of external

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..c8390ea 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -258,7 +258,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From 468c10ad19ed9397ed0b72510a977f3c4a5236c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:46 +0000
Subject: [PATCH 09/46] fix: parse the operator AS

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index c8390ea..d8c8415 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -140,6 +140,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From d28a32b010162f00a984dcf050c543581b02f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:48 +0000
Subject: [PATCH 10/46] fix: accept the empty set constructor

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index d8c8415..b257d21 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -316,6 +316,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From 1b31242636df75e4633dd9207a7c8d459facba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:50 +0000
Subject: [PATCH 11/46] fix: accept a call statement with an empty argument
 list

---
 parser/statement.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..0cf83eb 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -183,6 +183,10 @@ func (p *Parser) ParseDesignatorStatement() (ast.DesignatorStatement, error) {
 		if t.Is(token.Symbol('(')) {
 			p.NextToken()
 			terminator := token.Symbol(')')
+			if p.CurrentToken().Is(terminator) {
+				p.NextToken()
+				return res, nil
+			}
 			exprList, err := p.ParseExprList(terminator)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From f6e2048ec23847f2810022d6dfccd0b38b2d4595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 12/46] fix: accept empty formal parameters

---
 parser/function_heading.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..05c2706 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -165,6 +165,10 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	}
 	p.NextToken()
 	r := ast.FormalParameters{}
+	if p.CurrentToken().Is(token.Symbol(endRune)) {
+		p.NextToken()
+		return r, nil
+	}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
-- 
2.43.0


From 571616c5f21a0ea8dcfe09a4b1988ce806532b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 13/46] fix: leave the contents of a scope alone on rollback

---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From d599d8d2a5265eba1139af09b987d729cb004aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 14/46] fix: the last case selector doesn't need a semicolon

---
 parser/statement_conditional.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/statement_conditional.go b/parser/statement_conditional.go
index f9916ff..d19564f 100644
--- a/parser/statement_conditional.go
+++ b/parser/statement_conditional.go
@@ -78,20 +78,24 @@ func (p *Parser) ParseCaseStmt() (*ast.CaseStmt, error) {
 
 func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
 	r := ast.CaseSelectors{}
+	terminator := token.Some(
+		token.ReservedWord.HasKeyword("ELSE"),
+		token.ReservedWord.HasKeyword("END"),
+	)
 	for {
 		selector, err := p.ParseCaseSelector()
 		if err != nil {
 			return nil, err
 		}
 		r = append(r, selector)
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
 		p.NextToken()
-		if p.CurrentToken().Is(token.Some(
-			token.ReservedWord.HasKeyword("ELSE"),
-			token.ReservedWord.HasKeyword("END"),
-		)) {
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 	}
-- 
2.43.0


From daa25cd83e85e0114fa109d5c7704c269933a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:57 +0000
Subject: [PATCH 15/46] fix: an exception variable is visible in its handler
 only

---
 parser/statement_try.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..2f65df6 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -148,6 +148,8 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 		return nil, err
 	}
 	decl.Type = typ
+
+	defer p.context.StackDeclMap()()
 	if decl.Ident != nil {
 		if err := p.context.Set(decl); err != nil {
 			return nil, err
-- 
2.43.0


From aee05dfdd6e0c9a4ce346980167d59a03d4f6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:59 +0000
Subject: [PATCH 16/46] fix: go to the next token after NODEFAULT and
 IMPLEMENTS

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..893267d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -473,6 +473,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -480,6 +481,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From d922f62979b7f02d20ffe30ecbebad93dad24781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:01 +0000
Subject: [PATCH 17/46] fix: a class may start with a method or a property
 without visibility

---
 parser/type_class.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 893267d..da1e71d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -104,9 +104,8 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
-		return nil, err
-	} else {
+	{
+		t0 := p.CurrentToken()
 		switch strings.ToUpper(t0.Value()) {
 		case "PRIVATE":
 			res.Visibility = ast.CvPrivate
-- 
2.43.0


From c1d13b437f4afc7f41ff89bffc3c2c9fc9abbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:30 +0000
Subject: [PATCH 18/46] fix: report an error for a unit heading without
 semicolon

---
 parser/unit_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..edd03db 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -106,7 +106,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if err := p.Validate(t, token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From a24cb9aeeb1e202602bf6f12e3ce07990fb00587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:32 +0000
Subject: [PATCH 19/46] fix: go past the last token of every type

---
 parser/type.go       | 3 ++-
 parser/type_class.go | 3 +++
 parser/type_struc.go | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..7452b75 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -95,7 +95,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		if t.Is(token.Symbol(';')) {
 			return res, nil
 		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
+		if t.Is(token.PortabilityDirective) {
 			portabilityDirective := ast.PortabilityDirective(t.Value())
 			res.PortabilityDirective = &portabilityDirective
 			p.NextToken()
@@ -169,6 +169,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index da1e71d..ae3b535 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -50,12 +51,14 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 		res.Heritage = heritage
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		p.NextToken()
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From 05fb0e2613eae22f1dc764194f9d3a0122be5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 20/46] fix: return an error when the program file can't be
 opened

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 62cf8b65978cabc57dff60737cd0c446c7322f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:15 +0000
Subject: [PATCH 21/46] fix: a type may have the name of a declaration of an
 outer scope

---
 parser/type.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 7452b75..27d9fec 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -69,14 +68,15 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
+	if err := p.context.Set(res); err != nil {
+		// The name is already declared in this scope. Only a forward declaration can be completed
+		typeDecl, ok := p.context.Get(res.Ident.Name).Node.(*ast.TypeDecl)
 		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
+			return nil, err
 		}
 		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
 		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
+			return nil, err
 		}
 		if err := fwd.SetActualType(typ); err != nil {
 			return nil, err
@@ -84,10 +84,6 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
 		}
-	} else {
-		if err := p.context.Set(res); err != nil {
-			return nil, err
-		}
 	}
 
 	{
-- 
2.43.0


From e6d9f5cee85b270c19e092b1b6e1dd75652567fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:47 +0000
Subject: [PATCH 22/46] fix: a routine is visible after its declaration

---
 parser/function.go         | 30 ++++++++++++++++++++++++++++--
 parser/function_heading.go |  6 +++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c18c160..a723640 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 )
 
@@ -9,9 +10,10 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
-		defer p.context.StackDeclMap()()
 		var err error
+		unstack := p.context.StackDeclMap()
 		functionHeading, err = p.ParseFunctionHeading()
+		unstack()
 		if err != nil {
 			return nil, err
 		}
@@ -22,9 +24,15 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		return nil, err
 	}
 	res := &ast.FunctionDecl{FunctionHeading: functionHeading}
-	if err := p.context.Set(res); err != nil {
+	if err := p.setRoutine(res); err != nil {
 		return nil, err
 	}
+	defer p.context.StackDeclMap()()
+	for _, parm := range functionHeading.FormalParameters {
+		if err := p.context.Set(parm); err != nil {
+			return nil, err
+		}
+	}
 
 	p.NextToken()
 	if p.CurrentToken().Is(token.Directive) {
@@ -43,3 +51,21 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	res.Block = block
 	return res, nil
 }
+
+// setRoutine declares the routine in the current scope. A routine may be declared more than once:
+// its forward declaration and its overloads have the same name.
+func (p *Parser) setRoutine(node astcore.DeclNode) error {
+	err := p.context.Set(node)
+	if err == nil {
+		return nil
+	}
+	for _, decl := range node.ToDeclarations() {
+		switch p.context.Get(decl.Name).Node.(type) {
+		case *ast.FunctionDecl, *ast.ExportedHeading:
+			p.context.Overwrite(decl.Name, decl)
+		default:
+			return err
+		}
+	}
+	return nil
+}
diff --git a/parser/function_heading.go b/parser/function_heading.go
index 05c2706..8c2825b 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -10,13 +10,13 @@ import (
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
-	defer p.context.StackDeclMap()()
-
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
 		var err error
+		unstack := p.context.StackDeclMap()
 		functionHeading, err = p.ParseFunctionHeading()
+		unstack()
 		if err != nil {
 			return nil, err
 		}
@@ -25,7 +25,7 @@ func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
 		return nil, err
 	}
 	r := &ast.ExportedHeading{FunctionHeading: functionHeading}
-	if err := p.context.Set(r); err != nil {
+	if err := p.setRoutine(r); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From d9f3821324e875f1e9f42919dca034cffffc0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 23/46] fix: don't follow type aliases which refer to each
 other endlessly

---
 ast/type_id.go | 96 +++++++++++++++++---------------------------------
 1 file changed, 33 insertions(+), 63 deletions(-)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..eca5bbc 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -69,87 +69,57 @@ func (m *TypeId) getRefNodeDecl() *TypeDecl {
 	return decl
 }
 
+// actualType follows aliases to the type which is not an alias.
+// It returns nil if the type is unknown or the aliases refer to each other.
+func (m *TypeId) actualType() Type {
+	visited := map[*TypeId]bool{}
+	for !visited[m] {
+		visited[m] = true
+		decl := m.getRefNodeDecl()
+		if decl == nil {
+			return nil
+		}
+		alias, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl.Type
+		}
+		m = alias
+	}
+	return nil
+}
+
 func (*TypeId) isType() {}
 func (m *TypeId) IsSimpleType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	simpleType, ok := decl.Type.(SimpleType)
-	if !ok {
-		return false
-	}
-	return simpleType.IsSimpleType()
+	t, ok := m.actualType().(SimpleType)
+	return ok && t.IsSimpleType()
 }
 
 func (m *TypeId) IsOrdinalType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(OrdinalType)
-	if !ok {
-		return false
-	}
-	return ordinalType.IsOrdinalType()
+	t, ok := m.actualType().(OrdinalType)
+	return ok && t.IsOrdinalType()
 }
 
 func (m *TypeId) IsRealType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(RealType)
-	if !ok {
-		return false
-	}
-	return ordinalType.IsRealType()
+	t, ok := m.actualType().(RealType)
+	return ok && t.IsRealType()
 }
 
 func (m *TypeId) IsOrdIdent() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(OrdIdent)
-	if !ok {
-		return false
-	}
-	return ordIdent.IsOrdIdent()
+	t, ok := m.actualType().(OrdIdent)
+	return ok && t.IsOrdIdent()
 }
 
 func (m *TypeId) IsStringType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(StringType)
-	if !ok {
-		return false
-	}
-	return ordIdent.IsStringType()
+	t, ok := m.actualType().(StringType)
+	return ok && t.IsStringType()
 }
 
 func (m *TypeId) IsPointerType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(PointerType)
-	if !ok {
-		return false
-	}
-	return ordIdent.IsPointerType()
+	t, ok := m.actualType().(PointerType)
+	return ok && t.IsPointerType()
 }
 
 func (m *TypeId) IsVariantType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(VariantType)
-	if !ok {
-		return false
-	}
-	return ordIdent.IsVariantType()
+	t, ok := m.actualType().(VariantType)
+	return ok && t.IsVariantType()
 }
-- 
2.43.0


From c45c517624f8a0292b74913138cfa10e17e95ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:06 +0000
Subject: [PATCH 24/46] fix: a file type isn't of the kind of its elements

---
 ast/type_struc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..35d3186 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -62,7 +62,7 @@ func (m *SetType) Children() Nodes {
 //   FILE OF TypeId [PortabilityDirective]
 //   ```
 type FileType struct {
-	*TypeId
+	TypeId *TypeId
 	Packed bool
 }
 
-- 
2.43.0


From c166482d22128f729ae1caa7b325632a8932f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:08 +0000
Subject: [PATCH 25/46] fix: find inherited members through forward
 declarations and aliases, and not endlessly

---
 ast/type_class.go | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..69f4f3d 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -72,20 +72,41 @@ func (m *CustomClassType) Children() Nodes {
 
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
-		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
-					return parentClass
-				}
-			}
+		switch parent := m.Heritage[0].actualType().(type) {
+		case *CustomClassType:
+			return parent
+		case *ForwardDeclaredClassType:
+			return parent.Actual
 		}
 	}
 	return nil
 }
 
+// ancestors returns the parent class, its parent class and so on
+func (m *CustomClassType) ancestors() []*CustomClassType {
+	r := []*CustomClassType{}
+	visited := map[*CustomClassType]bool{m: true}
+	for c := m.GetParentClass(); c != nil && !visited[c]; c = c.GetParentClass() {
+		visited[c] = true
+		r = append(r, c)
+	}
+	return r
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
-	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
+	if r := m.findOwnMemberDecl(name, includePrivate); r != nil {
+		return r
+	}
+	for _, c := range m.ancestors() {
+		if r := c.findOwnMemberDecl(name, false); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
+	defer log.TraceMethod("CustomClassType.findOwnMemberDecl: " + name)()
 
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
@@ -114,10 +135,6 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 			}
 		}
 	}
-
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
-	}
 	return nil
 }
 
@@ -133,8 +150,10 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 		}
 	}
 	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
+		for _, c := range m.ancestors() {
+			if r := c.FindProperty(name, false); r != nil {
+				return r
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From c545e759ccf163357f9e67c855bd8a289e536147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:10 +0000
Subject: [PATCH 26/46] fix: walk to the identifier after ABSOLUTE, and to the
 tag field before its type

---
 ast/type_struc.go | 3 ++-
 ast/var.go        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 35d3186..9e63154 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -157,10 +157,11 @@ type VariantSection struct {
 var _ Node = (*VariantSection)(nil)
 
 func (m *VariantSection) Children() Nodes {
-	r := Nodes{m.TypeId}
+	r := Nodes{}
 	if m.Ident != nil {
 		r = append(r, m.Ident)
 	}
+	r = append(r, m.TypeId)
 	if m.RecVariants != nil {
 		r = append(r, m.RecVariants)
 	}
diff --git a/ast/var.go b/ast/var.go
index ff545e6..8af7357 100644
--- a/ast/var.go
+++ b/ast/var.go
@@ -88,8 +88,8 @@ func NewVarDeclAbsoluteIdent(arg interface{}) *VarDeclAbsoluteIdent {
 }
 
 func (VarDeclAbsoluteIdent) isVarDeclAbsolute() {}
-func (*VarDeclAbsoluteIdent) Children() Nodes {
-	return Nodes{}
+func (m *VarDeclAbsoluteIdent) Children() Nodes {
+	return Nodes{(*Ident)(m)}
 }
 
 type VarDeclAbsoluteConstExpr ConstExpr
-- 
2.43.0


From ba648ad5fb43d6d00b9c74bb5a10703dfba7b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 27/46] fix: accept empty statements

---
 parser/statement.go       | 22 +++++++++++++++++-----
 parser/statement_raise.go |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/parser/statement.go b/parser/statement.go
index 0cf83eb..64f9dea 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -37,22 +37,31 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 		if err != nil {
 			return nil, err
 		}
-		if p.CurrentToken().Is(terminator) {
+		if statement.LabelId != nil || statement.Body != nil {
 			res = append(res, statement)
+		}
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
-		res = append(res, statement)
 		p.NextToken()
-		if p.CurrentToken().Is(terminator) {
-			break
-		}
 	}
 	return res, nil
 }
 
+// statementEnd is what may follow a statement
+var statementEnd = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
+)
+
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
@@ -68,6 +77,9 @@ func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	}
 
 	t := p.CurrentToken()
+	if t.Is(statementEnd) {
+		return res, nil
+	}
 	if t.Is(token.ReservedWord) {
 		switch t.Value() {
 		case "INHERITED":
diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..146bada 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -13,7 +13,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(statementEnd) {
 		return res, nil
 	}
 
-- 
2.43.0


From 0ae55d7688bce342157d0fc56d25b0b71df34fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:21 +0000
Subject: [PATCH 28/46] fix: a declared type hides the embedded type of the
 same name

---
 parser/type_simple.go  | 14 ++++++++++++--
 parser/type_string.go  |  2 +-
 parser/type_variant.go |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/type_simple.go b/parser/type_simple.go
index c235979..d3f71f4 100644
--- a/parser/type_simple.go
+++ b/parser/type_simple.go
@@ -2,13 +2,23 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
 )
 
+// embeddedTypeDecl returns nil if another declaration hides the embedded type
+func (p *Parser) embeddedTypeDecl(kind ast.EmbeddedTypeKind, t *token.Token) *astcore.Decl {
+	embedded := ast.EmbeddedTypeDecl(kind, t.Value())
+	if decl := p.context.Get(t.Value()); decl != nil && decl != embedded {
+		return nil
+	}
+	return embedded
+}
+
 func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkReal, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkReal, t)
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
@@ -21,7 +31,7 @@ func (p *Parser) ParseRealType(required bool) (ast.RealType, error) {
 
 func (p *Parser) ParseOrdIdent(required bool) (ast.OrdIdent, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkOrdIdent, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkOrdIdent, t)
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
diff --git a/parser/type_string.go b/parser/type_string.go
index b671522..8a6a0a2 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -7,7 +7,7 @@ import (
 
 func (p *Parser) ParseStringType(required bool) (ast.StringType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkStringType, t)
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
diff --git a/parser/type_variant.go b/parser/type_variant.go
index 0638ac9..cf8b660 100644
--- a/parser/type_variant.go
+++ b/parser/type_variant.go
@@ -6,7 +6,7 @@ import (
 
 func (p *Parser) ParseVariantType(required bool) (ast.VariantType, error) {
 	t := p.CurrentToken()
-	decl := ast.EmbeddedTypeDecl(ast.EtkVariantType, t.Value())
+	decl := p.embeddedTypeDecl(ast.EtkVariantType, t)
 	if decl != nil {
 		p.NextToken()
 		return ast.NewTypeId(p.NewIdent(t), decl), nil
-- 
2.43.0


From 91a964216de8bbef55d4a3b4975ea7f972e29d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:43 +0000
Subject: [PATCH 29/46] fix: accept both NAME and INDEX of an exports item

---
 parser/block.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index 801aa24..c354fd8 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -132,21 +132,25 @@ func (p *Parser) ParseExportsStmt(required bool) (*ast.ExportsStmt, error) {
 			return err
 		}
 		item := &ast.ExportsItem{Ident: p.NewIdent(t)}
-		t2 := p.NextToken()
-		if t2.Is(token.Directives("NAME")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
-			}
-			item.Name = constExpr
-		} else if t2.Is(token.Directives("INDEX")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
+		p.NextToken()
+		for {
+			if item.Name == nil && p.CurrentToken().Is(token.Directives("NAME")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Name = constExpr
+			} else if item.Index == nil && p.CurrentToken().Is(token.Directives("INDEX")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Index = constExpr
+			} else {
+				break
 			}
-			item.Index = constExpr
 		}
 		items = append(items, item)
 		return nil
-- 
2.43.0


From 3189038a95bbebf8ef97a76d4d573d786a087b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 30/46] fix: a program needs a body

---
 parser/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index 276f9b7..108db8d 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -108,6 +108,9 @@ func (p *ProgramParser) ParseProgramBlock() (*ast.ProgramBlock, error) {
 	if err != nil {
 		return nil, err
 	}
+	if block.Body == nil {
+		return nil, p.TokenErrorf("expects BEGIN or ASM but was %s", p.CurrentToken())
+	}
 	res.Block = block
 	return res, nil
 }
-- 
2.43.0


From a483a18cdb7bd83f0db31ea3bad36b179703f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:47 +0000
Subject: [PATCH 31/46] fix: a type name is an identifier or STRING

---
 parser/type.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 27d9fec..28537e2 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -169,8 +169,17 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
+var typeIdPredicator = token.Some(
+	token.Identifier,
+	token.ReservedWord.HasKeyword("STRING"),
+)
+
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-	ident := p.NewIdent(p.CurrentToken())
+	t, err := p.Current(typeIdPredicator)
+	if err != nil {
+		return nil, err
+	}
+	ident := p.NewIdent(t)
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
 
-- 
2.43.0


From 143915ef288c82ee859623d41940d82a95120e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:49 +0000
Subject: [PATCH 32/46] fix: the names of constructors, destructors and
 properties are identifiers

---
 parser/type_class.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index ae3b535..724cbeb 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -319,7 +319,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -341,7 +344,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -378,7 +384,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From 01e09ac398b010d27355e2edbb8835bfa391c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:50 +0000
Subject: [PATCH 33/46] fix: tell where an unexpected token of a method is

---
 parser/type_class.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 724cbeb..f92f1d3 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 
 	"github.com/akm/tparser/ast"
@@ -274,7 +273,7 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		}
 		res.Heading = heading
 	default:
-		return nil, fmt.Errorf("unexpected token for method: %s", t0)
+		return nil, p.TokenErrorf("unexpected token for method: %s", t0)
 	}
 
 	directiveList, err := p.ClassMethodDirectiveList()
-- 
2.43.0


From 5208d1d7010f9c260af20c1665305d66b230d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:52 +0000
Subject: [PATCH 34/46] fix: a variant part in another variant part ends with
 the parenthesis

---
 parser/type_struc.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..3e32c43 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -167,7 +167,7 @@ func (p *Parser) ParseFieldList(terminator token.Predicator) (*ast.FieldList, er
 	r.FieldDecls = fieldDecls
 
 	if p.CurrentToken().Is(casePred) {
-		variantSection, err := p.ParseVariantSection()
+		variantSection, err := p.parseVariantSection(terminator)
 		if err != nil {
 			return nil, err
 		}
@@ -201,6 +201,10 @@ func (p *Parser) ParseFieldDecl(terminator token.Predicator) (*ast.FieldDecl, er
 }
 
 func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
+	return p.parseVariantSection(token.ReservedWord.HasKeyword("END"))
+}
+
+func (p *Parser) parseVariantSection(terminator token.Predicator) (*ast.VariantSection, error) {
 	log.Printf("ParseVariantSection")
 	if _, err := p.Current(token.ReservedWord.HasKeyword("CASE")); err != nil {
 		return nil, p.TokenErrorf("Expected CASE, got %s", p.CurrentToken())
@@ -233,9 +237,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
-	if err := p.Until(endPred, token.Symbol(';'), func() error {
-		if p.CurrentToken().Is(endPred) {
+	if err := p.Until(terminator, token.Symbol(';'), func() error {
+		if p.CurrentToken().Is(terminator) {
 			return QuitUntil
 		}
 		recVariant, err := p.ParseRecVariant()
-- 
2.43.0


From 2f7f32bd37725e901f90d6596b8f8b36b703028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 35/46] fix: a routine which is forward or external has no
 block

---
 parser/function.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index a723640..4e578ae 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -42,6 +42,12 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		}
 		res.Directives = directives
 		res.ExternalOptions = opts
+		for _, d := range directives {
+			if d == ast.DrForward || d == ast.DrExternal {
+				res.Block = &ast.Block{}
+				return res, nil
+			}
+		}
 	}
 	// TODO PortabilityDirective
 	block, err := p.ParseBlock()
-- 
2.43.0


From 9ab3ad8cb8d2c3dd62e5e9ff6900a35577275b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 36/46] fix: the elements of enumerated types in an interface
 are visible in other units

---
 parser/unit_parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index edd03db..a7c497f 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -163,6 +163,14 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
 			declMap.Set(declNode)
+			if err := astcore.WalkDown(declNode, func(n ast.Node) error {
+				if element, ok := n.(*ast.EnumeratedTypeElement); ok {
+					return declMap.Set(element)
+				}
+				return nil
+			}); err != nil {
+				return err
+			}
 		}
 	}
 	p.Unit.DeclMap = declMap
-- 
2.43.0


From 27a869cb214e7b69aaa6bc6e01896a7a478591de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 37/46] fix: portability directives in any letter case

---
 parser/type.go        | 4 +++-
 parser/unit_parser.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 28537e2..5a21ad7 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
 )
@@ -92,7 +94,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 			return res, nil
 		}
 		if t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
+			portabilityDirective := ast.PortabilityDirective(strings.ToUpper(t.Value()))
 			res.PortabilityDirective = &portabilityDirective
 			p.NextToken()
 		}
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index a7c497f..123cf7f 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"io/ioutil"
 	"os"
+	"strings"
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
@@ -102,7 +103,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 
 	t := p.NextToken()
 	if t.Is(token.PortabilityDirective) {
-		s := ast.PortabilityDirective(t.Value())
+		s := ast.PortabilityDirective(strings.ToUpper(t.Value()))
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-- 
2.43.0


From 6c5d187f2c263cd7aedf40de96d52851aa6cb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:16 +0000
Subject: [PATCH 38/46] fix: the name of an exception variable must be an
 identifier

---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 2f65df6..38d58fa 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -137,6 +137,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
 	if hasIdent {
+		if err := p.Validate(t, token.Identifier); err != nil {
+			return nil, err
+		}
 		decl.Ident = p.NewIdent(t)
 		if _, err := p.Next(token.Symbol(':')); err != nil {
 			return nil, err
-- 
2.43.0


From 98f624a8fedb3b4b5387a9928e7aebd7040396a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 39/46] fix: a set type is not an ordinal type

---
 ast/type_struc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 9e63154..e75bbd0 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -44,8 +44,8 @@ func (m *ArrayType) Children() Nodes {
 //   SET OF OrdinalType [PortabilityDirective]
 //   ```
 type SetType struct {
-	OrdinalType
-	Packed bool
+	OrdinalType OrdinalType
+	Packed      bool
 }
 
 var _ StrucType = (*SetType)(nil)
-- 
2.43.0


From b85c2bbee93e556e0db1c42ebd32d53a7adf3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 40/46] fix: a declaration of a unit can be qualified with its
 own name in its interface

---
 parser/unit_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 123cf7f..0f2865e 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -144,6 +144,11 @@ func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
 	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
+	// Declarations in the interface can be referred with the name of this unit before the end of the interface.
+	declMap := astcore.NewDeclMap()
+	m.context.DeclMap = astcore.NewCompositeDeclMap(declMap, m.context.DeclMap)
+	m.Unit.DeclMap = declMap
+
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
 	}
-- 
2.43.0


From a84ac89de4d126302bfe4bc74c8ce7791b687dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:40 +0000
Subject: [PATCH 41/46] fix: two units with the same name are an error

---
 parser/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index 108db8d..5835b75 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -131,6 +131,9 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 		if err := loader.ProcessIdentAndIntfUses(); err != nil {
 			return err
 		}
+		if p.context.Units.ByName(loader.Unit.Name) != nil {
+			return errors.Errorf("duplicate unit: %s in %q", loader.Unit.Name, loader.Unit.Path)
+		}
 		p.context.AddUnit(loader.Unit)
 	}
 
-- 
2.43.0


From 5dacf4be417c5afef60358bc5c50260402c7f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:24 +0000
Subject: [PATCH 42/46] fix: a type qualified with a unit name refers to its
 declaration

---
 parser/type.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 5a21ad7..89bb8e5 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -156,10 +156,11 @@ func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
-	if !p.IsUnitIdentifier(p.CurrentToken()) {
+	unitToken := p.CurrentToken()
+	if !p.IsUnitIdentifier(unitToken) && !p.IsNamespaceIdentifier(unitToken) {
 		return nil, nil
 	}
-	unitId := ast.NewUnitId(p.CurrentToken())
+	unitId := ast.NewUnitId(unitToken)
 	if _, err := p.Next(token.Symbol('.')); err != nil {
 		return nil, err
 	}
@@ -168,7 +169,23 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	res := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+
+	var namespace ast.Namespace
+	switch node := p.context.Get(unitToken.Value()).Node.(type) {
+	case *ast.UsesClauseItem:
+		if node.Unit != nil {
+			namespace = node.Unit
+		}
+	case ast.Namespace:
+		namespace = node
+	}
+	if namespace != nil {
+		if declMap := namespace.GetDeclMap(); declMap != nil {
+			res.Ref = declMap.Get(t.Value())
+		}
+	}
+	return res, nil
 }
 
 var typeIdPredicator = token.Some(
-- 
2.43.0


From 039e2f7308ecd5161afc7b6ea31d80cc5fcd9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:46 +0000
Subject: [PATCH 43/46] fix: the order of units and of names in messages does
 not depend on map iteration

---
 ext/string_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/string_set.go b/ext/string_set.go
index f52124c..9570bae 100644
--- a/ext/string_set.go
+++ b/ext/string_set.go
@@ -44,7 +44,7 @@ func (m StringSet) Slice() Strings {
 		r[i] = k
 		i++
 	}
-	return r
+	return r.Sort()
 }
 
 func (m StringSet) Equal(other StringSet) bool {
-- 
2.43.0


From d397de8f9f147a1cfbdee9a6147631e5a0dfa0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 44/46] fix: bind class references to classes declared later in
 the section

---
 parser/type_class.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index f92f1d3..fc75b9d 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -32,6 +32,13 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		}
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
+			if decl == nil {
+				p.AddPostSection(func() {
+					if decl := p.context.Get(t.Value()); decl != nil {
+						typeId.Ref = decl
+					}
+				})
+			}
 		}
 		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
-- 
2.43.0


From 92d4d4fa47dd32557d6362e15daa5a3f20f85776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:09 +0000
Subject: [PATCH 45/46] fix: a clone of a stackable context keeps its parent
 and path

---
 parser/pcontext/stackable_context.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/pcontext/stackable_context.go b/parser/pcontext/stackable_context.go
index cd37d22..e4deb7d 100644
--- a/parser/pcontext/stackable_context.go
+++ b/parser/pcontext/stackable_context.go
@@ -20,9 +20,7 @@ func NewStackableContext(parent Context, args ...interface{}) Context {
 }
 
 func (c *StackableContext) Clone() Context {
-	return &ProgramContext{
-		DeclMap: c.declMap,
-	}
+	return &StackableContext{path: c.path, parent: c.parent, declMap: c.declMap}
 }
 
 func (c *StackableContext) Get(name string) *astcore.Decl {
-- 
2.43.0


From f9145cc5b2cce872a0b6253a7a15d6277ea762c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:10 +0000
Subject: [PATCH 46/46] fix: names of identifier lists and unit references can
 be given as strings

---
 ast/astcore/ident.go | 2 +-
 ast/uses_clause.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/astcore/ident.go b/ast/astcore/ident.go
index 6973de3..d6b8f1c 100644
--- a/ast/astcore/ident.go
+++ b/ast/astcore/ident.go
@@ -98,7 +98,7 @@ func NewIdentList(args ...interface{}) IdentList {
 		case []string:
 			r := make(IdentList, len(v))
 			for idx, i := range v {
-				r[idx] = NewIdentFrom(i)
+				r[idx] = &Ident{Name: i}
 			}
 			return r
 		default:
diff --git a/ast/uses_clause.go b/ast/uses_clause.go
index 45eb8a0..3071ee6 100644
--- a/ast/uses_clause.go
+++ b/ast/uses_clause.go
@@ -72,7 +72,7 @@ func NewUnitRef(name interface{}, paths ...string) *UsesClauseItem {
 	case *Ident:
 		nameIdent = v
 	case string:
-		nameIdent = NewIdentFrom(v)
+		nameIdent = &Ident{Name: v}
 	default:
 		panic(errors.Errorf("invalid type %T", name))
 	}
-- 
2.43.0

