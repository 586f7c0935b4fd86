From 626599f467ccb06a512708200877934720d17cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 01/41] fix: a trailing comment no longer swallows the line
 break that ends its statement

---
 src/lexer/lexer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..abafbbe 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
-- 
2.43.0


From e29882059672bab916cf6bde83d3f1ed2ef0f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 02/41] fix: '//' after a number starts a comment instead of a
 date literal without month

---
 src/lexer/symbolLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..a89686f 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (i == 1 || c != '/' || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From 3c081df105b7aa7fb887a07ffb0d96ac521ecdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 03/41] fix: accept a tab between an I/O keyword and '('

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index abafbbe..fdcf968 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -59,7 +59,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From 91620ce665a2f48192a6c2fc3aa9167c919ad6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 04/41] fix: DATE(...) casts report an error instead of
 aborting in the parser

---
 src/parser/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From 0914056028e2752424d31feae8c687a0d094ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 05/41] fix: casting a DATE to REAL, BOOLEAN or CHAR, or
 casting a missing value, is a runtime error

---
 src/nodes/cast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..eee1e48 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,9 +10,11 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (!value->data->isPrimitive())
+    if (value->data == nullptr || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::TypeOperationError(token, ctx, "Cast");
 
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
-- 
2.43.0


From 9e944cc8c252fb8e7f02958586ea3191e987fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 06/41] fix: '&' on an operand without a value is a runtime
 error

---
 src/nodes/eval/stringcat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..ae3a80e 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,7 +7,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
-    if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
+    if (leftRes->data == nullptr || rightRes->data == nullptr
+        || !leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
-- 
2.43.0


From baf988bde4ff8f331057e9a94cae1987152aa17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 07/41] fix: numeric literals out of range are syntax errors
 instead of uncaught exceptions

---
 src/nodes/eval/arithmetic.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..1405401 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -10,8 +10,16 @@
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+inline PSC::int_t makeInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal is out of range");
+    }
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(makeInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +27,15 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+inline PSC::real_t makeReal(const Token &token) {
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(value))
+        throw PSC::SyntaxError(token, "Real literal is out of range");
+    return value;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(makeReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From 8a4a7b301ea0c96749777973839fe89dc0384c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 08/41] fix: date literals with oversized components are
 invalid dates, not narrowed or fatal

---
 src/nodes/eval/arithmetic.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 1405401..97ba063 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -73,9 +73,23 @@ inline PSC::Date makeDate(const std::string &dateStr) {
         else yearStr += c;
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
+    bool inRange = true;
+    auto component = [&inRange](const std::string &digits, unsigned int max) {
+        unsigned int value = 0;
+        for (char c : digits) {
+            value = value * 10 + (c - '0');
+            if (value > max) {
+                inRange = false;
+                return 0u;
+            }
+        }
+        return value;
+    };
+
+    std::chrono::day day(component(dayStr, 31));
+    std::chrono::month month(component(monthStr, 12));
+    std::chrono::year year(component(yearStr, 32767));
+    if (!inRange) day = std::chrono::day(0);
 
     return PSC::Date(std::chrono::year_month_day(year, month, day));
 }
-- 
2.43.0


From 95eac7192819390b4e23ea558a492049f35c00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 09/41] fix: SETDATE rejects components that do not fit a
 calendar date instead of narrowing them

---
 src/psc/builtinFunctions/date.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..5f94d12 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,9 +90,16 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
+    int_t dayValue = dayVar->get<PSC::Integer>().value;
+    int_t monthValue = monthVar->get<PSC::Integer>().value;
+    int_t yearValue = yearVar->get<PSC::Integer>().value;
+    if (dayValue < 1 || dayValue > 31 || monthValue < 1 || monthValue > 12
+        || yearValue < (int) year::min() || yearValue > (int) year::max())
+        throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
+
+    day day(dayValue);
+    month month(monthValue);
+    year year(yearValue);
 
     year_month_day ymd(year, month, day);
     if (!ymd.ok())
-- 
2.43.0


From b2f267a1c59eb9d4e34ed0477861eaaba67899c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 10/41] fix: dates with negative years compare in chronological
 order

---
 src/psc/types/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..9da622d 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -12,7 +12,7 @@ std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int month = static_cast<unsigned int>(date.month());
     int year = static_cast<int>(date.year());
 
-    int_t cmp = year * 372 + month * 31 + day;
+    int_t cmp = (int_t) year * 372 + month * 31 + day;
     return std::make_unique<Integer>(cmp);
 }
 
-- 
2.43.0


From 4154a103eb368ead2056062bc4810898728b3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 11/41] fix: a date loaded from a random file must be a valid
 calendar date

---
 src/psc/types/date.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 9da622d..de414dc 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -50,13 +50,16 @@ bool Date::load(std::istream &in, Context&) {
     in >> day;
     in >> month;
     in >> year;
-    if (in.fail()) return false;
+    if (in.fail() || day > 31 || month > 12
+        || year < (int) std::chrono::year::min() || year > (int) std::chrono::year::max()) return false;
 
-    date = std::chrono::year_month_day(
+    std::chrono::year_month_day loaded{
         std::chrono::year(year),
         std::chrono::month(month),
         std::chrono::day(day)
-    );
+    };
+    if (!loaded.ok() && (day != 0 || month != 0 || year != 0)) return false;
 
+    date = loaded;
     return true;
 }
-- 
2.43.0


From 909b812d315501e79686217590cbf9d6870e0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 12/41] fix: blank and comment lines are accepted inside TYPE
 ... ENDTYPE

---
 src/parser/userType.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..4c01156 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,7 +59,10 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
-    while (currentToken->type == TokenType::DECLARE) {
+    while (true) {
+        while (currentToken->type == TokenType::LINE_END) advance();
+        if (currentToken->type != TokenType::DECLARE) break;
+
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
-- 
2.43.0


From 820f7a6b940d64f80476dfac25be397add8c28d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 13/41] fix: enum arithmetic wraps with signed arithmetic and
 cannot overflow

---
 src/nodes/eval/arithmetic.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 97ba063..10f06c5 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -159,13 +159,16 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
+        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
+        PSC::int_t enumSize = definition.values.size();
+
         PSC::int_t left, right;
         if (enumSwap) {
-            left = integer.value;
+            left = integer.value % enumSize;
             right = enumVal.idx;
         } else {
             left = enumVal.idx;
-            right = integer.value;
+            right = integer.value % enumSize;
         }
 
         PSC::int_t res;
@@ -175,8 +178,6 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-- 
2.43.0


From fce4e322758fce7a9e4cfba743309c7e4dfbafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 14/41] fix: an enumerated type keeps its values when its
 definition runs again

---
 src/nodes/variable/enum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..3df3680 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From 0a488a964f02171c9d2afbdf3ea1b7bd1ac3f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 15/41] fix: enumerated results carry their type, and values of
 different types never match

---
 src/nodes/eval/arithmetic.cpp   | 2 +-
 src/nodes/variable/variable.cpp | 2 +-
 src/psc/types/types.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 10f06c5..0758232 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -183,7 +183,7 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
 
         std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition.name));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..b172c72 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -147,7 +147,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition(ctx).name));
         throw e;
     }
 
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..c88b95b 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,7 +4,7 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : name(nullptr), type(PSC::DataType::NONE) {}
 
 DataType::DataType(Type type, const std::string *name)
     : name(name), type(type) {}
-- 
2.43.0


From cbfae72eed12ea34ddc5ad91d0eb01eb62661225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 16/41] fix: a value keeps its own type when a local type of
 the same name hides it

---
 src/psc/types/types.cpp    |  2 +-
 src/psc/types/types.h      |  6 +++---
 src/psc/types/userType.cpp | 20 ++++++++++++--------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index c88b95b..aa85c80 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -15,5 +15,5 @@ bool DataType::operator==(Type other) const {
 
 bool DataType::operator==(const DataType &other) const {
     if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && name == other.name;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..0676baf 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -271,7 +271,7 @@ namespace PSC {
 
     class Enum : public Custom {
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Owned by the type's definition, and identifies it
         std::size_t idx = 0;
 
         Enum(const std::string &name);
@@ -295,7 +295,7 @@ namespace PSC {
         Context *varCtx = nullptr;
 
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Owned by the type's definition, and identifies it
 
         Pointer(const std::string &name);
 
@@ -318,7 +318,7 @@ namespace PSC {
 
     class Composite : public Custom {
     public:
-        const std::string definitionName;
+        const std::string &definitionName; // Owned by the type's definition, and identifies it
         std::unique_ptr<Context> ctx;
 
         Composite(const std::string &name, Context &parent);
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..a591d31 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -14,7 +14,9 @@ void Enum::operator=(const Enum &other) {
 }
 
 const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
+    const EnumTypeDefinition *def = ctx.getEnumDefinition(definitionName);
+    if (&def->name != &definitionName) def = ctx.getGlobalContext()->getEnumDefinition(definitionName);
+    return *def;
 }
 
 std::string Enum::getString(Context &ctx) const {
@@ -32,12 +34,11 @@ bool Enum::load(std::istream &in, Context &ctx) {
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= getDefinition(ctx).values.size()) return false;
 
     idx = idx1;
     return true;
@@ -73,7 +74,9 @@ const Context *Pointer::getCtx() const {
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
+    const PointerTypeDefinition *def = ctx.getPointerDefinition(definitionName);
+    if (&def->name != &definitionName) def = ctx.getGlobalContext()->getPointerDefinition(definitionName);
+    return *def;
 }
 
 void Pointer::dump(std::ostream&) const {}
@@ -109,7 +112,9 @@ DataHolder *Composite::getMember(const std::string &name) {
 }
 
 const CompositeTypeDefinition &Composite::getDefinition(PSC::Context &ctx) const {
-    return *ctx.getCompositeDefinition(definitionName);
+    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(definitionName);
+    if (&def->name != &definitionName) def = ctx.getGlobalContext()->getCompositeDefinition(definitionName);
+    return *def;
 }
 
 void Composite::dump(std::ostream &out) const {
@@ -135,8 +140,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
-- 
2.43.0


From 7fba464a27a4ae89c8af673ff8f5e6eaf156d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 17/41] fix: types declared in a procedure are found from
 inside its records

---
 src/psc/scope/context.cpp | 12 ++++++++----
 src/psc/scope/context.h   |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..e2c59bb 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -117,6 +117,10 @@ Context *Context::getGlobalContext() {
     return ctx;
 }
 
+Context *Context::getOuterTypeContext() {
+    return isCompositeCtx ? parent : getGlobalContext();
+}
+
 const std::string &Context::getName() const {
     return name;
 }
@@ -238,7 +242,7 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
             }
         }
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumElement(value);
+    if (global && parent != nullptr) return getOuterTypeContext()->getEnumElement(value);
     return nullptr;
 }
 
@@ -258,7 +262,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getEnumDefinition(name);
     return nullptr;
 }
 
@@ -266,7 +270,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getPointerDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getPointerDefinition(name);
     return nullptr;
 }
 
@@ -274,7 +278,7 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getCompositeDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getCompositeDefinition(name);
     return nullptr;
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..699e4f1 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -56,6 +56,9 @@ namespace PSC {
 
         Context *getGlobalContext();
 
+        // Where type names not defined in this context are looked up
+        Context *getOuterTypeContext();
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
-- 
2.43.0


From 9107fa9ab3a032675fb79e3b0e8f5b5dbb9882f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 18/41] fix: copying a record or an array copies every field
 and element in place

---
 src/psc/array.cpp          | 11 ++++++++---
 src/psc/array.h            |  2 +-
 src/psc/scope/context.cpp  | 13 ++++++++++---
 src/psc/scope/context.h    |  2 ++
 src/psc/types/types.h      |  2 ++
 src/psc/types/userType.cpp |  5 +++++
 src/psc/variable.cpp       | 36 +++++++++++++++++++++++++++++++++++-
 src/psc/variable.h         |  3 +++
 8 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..10624f1 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,15 +26,20 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
     dimensions(Array::copyDimensions(other.dimensions))
-{}
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<PSC::Variable>(*element, ctx));
+    }
+}
 
 void Array::copyData(const Array &other) {
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->assign(other.data[i]->get<Value>());
     }
 }
 
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..c5b4686 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -34,7 +34,7 @@ namespace PSC {
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        Array(const Array &other, Context *ctx);
 
         void copyData(const Array &other);
 
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index e2c59bb..2940137 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -28,21 +28,28 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
 }
 
 Context::Context(const Context &other)
-    : parent(other.parent),
+    : Context(other, other.parent)
+{}
+
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
     returnType(other.returnType)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
+    copyPtrVector(other.arrays, arrays, this);
     copyPtrVector(other.procedures, procedures);
     copyPtrVector(other.functions, functions);
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->assign(other.variables[i]->get<Value>());
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
     }
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 699e4f1..b0a1d56 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -45,6 +45,8 @@ namespace PSC {
         // For copying composites
         explicit Context(const Context &other);
 
+        Context(const Context &other, Context *parent);
+
         // Only for composites
         void copyVariableData(const Context &other);
 
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0676baf..c0aeaa9 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -325,6 +325,8 @@ namespace PSC {
 
         Composite(const Composite &other);
 
+        Composite(const Composite &other, Context &parent);
+
         void operator=(const Composite &other);
 
         DataHolder *getMember(const std::string &name);
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index a591d31..faf32ba 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -98,6 +98,11 @@ Composite::Composite(const Composite &other)
     ctx(std::make_unique<Context>(*other.ctx))
 {}
 
+Composite::Composite(const Composite &other, Context &parent)
+    : definitionName(other.definitionName),
+    ctx(std::make_unique<Context>(*other.ctx, &parent))
+{}
+
 void Composite::operator=(const Composite &other) {
     if (definitionName != other.definitionName) std::abort();
     ctx->copyVariableData(*other.ctx);
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..2812dea 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -91,7 +91,41 @@ void Variable::set(Value *_data, bool copy) {
             data = new PSC::Pointer(*((const PSC::Pointer*) _data));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            data = new PSC::Composite(*((const PSC::Composite*) _data), *parent);
+            break;
+        case DataType::NONE:
+            std::abort();
+    }
+}
+
+void Variable::assign(const Value &value) {
+    switch (type.type) {
+        case DataType::INTEGER:
+            get<PSC::Integer>() = (const PSC::Integer&) value;
+            break;
+        case DataType::REAL:
+            get<PSC::Real>() = (const PSC::Real&) value;
+            break;
+        case DataType::BOOLEAN:
+            get<PSC::Boolean>() = (const PSC::Boolean&) value;
+            break;
+        case DataType::CHAR:
+            get<PSC::Char>() = (const PSC::Char&) value;
+            break;
+        case DataType::STRING:
+            get<PSC::String>() = (const PSC::String&) value;
+            break;
+        case DataType::DATE:
+            get<PSC::Date>() = (const PSC::Date&) value;
+            break;
+        case DataType::ENUM:
+            get<PSC::Enum>() = (const PSC::Enum&) value;
+            break;
+        case DataType::POINTER:
+            get<PSC::Pointer>() = (const PSC::Pointer&) value;
+            break;
+        case DataType::COMPOSITE:
+            get<PSC::Composite>() = (const PSC::Composite&) value;
             break;
         case DataType::NONE:
             std::abort();
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..ed2edc6 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -43,6 +43,9 @@ namespace PSC {
 
         void set(Value *_data, bool copy = false);
 
+        // Stores a copy of `value`, which must be of this variable's type, in the existing data
+        void assign(const Value &value);
+
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
 
-- 
2.43.0


From 739d310ba6f81c6eac97f92dab278591eef01dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 19/41] fix: a field name that the record does not declare
 never reaches a global variable

---
 src/psc/types/userType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index faf32ba..bf79e30 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -109,10 +109,10 @@ void Composite::operator=(const Composite &other) {
 }
 
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
-- 
2.43.0


From 5db26a3cc1b9ec64bab0cd36c396ce09710fe296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 20/41] fix: array fields of a record are separated in a random
 file

---
 src/psc/types/userType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index bf79e30..225ee09 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -135,7 +135,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From a4aec7ec2e61185b9d87b2226f3d35bcdea7deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 21/41] fix: a local array hides a global variable of the same
 name, and only locals are cached

---
 src/nodes/variable/resolver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..50703b5 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -158,18 +158,24 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
+    PSC::Variable *var = ctx.getVariable(token.value, false);
     if (var != nullptr) {
         cache.set(var, ctx);
         return *var;
     }
 
-    PSC::Array *arr = ctx.getArray(token.value);
+    PSC::Array *arr = ctx.getArray(token.value, false);
     if (arr != nullptr) {
         cache.set(arr, ctx);
         return *arr;
     }
 
+    var = ctx.getVariable(token.value);
+    if (var != nullptr) return *var;
+
+    arr = ctx.getArray(token.value);
+    if (arr != nullptr) return *arr;
+
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
 }
 
-- 
2.43.0


From bf7bc2d4142a24a4fd93699d628801ce7e30970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 22/41] fix: assigning something without a value is a runtime
 error

---
 src/nodes/variable/variable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b172c72..1d39a16 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -75,6 +75,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
 
+    if (valueRes->type == PSC::DataType::NONE)
+        throw PSC::InvalidUsageError(token, ctx, "assignment operator: expected a value");
+
     PSC::Variable *var;
     try {
         PSC::DataHolder &holder = resolver->resolve(ctx);
-- 
2.43.0


From f97530906ced3fb486b5fe70e086a2c75595567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 23/41] fix: a record type that contains itself is a runtime
 error instead of endless recursion

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 2 ++
 src/psc/scope/context.cpp       | 8 ++++++++
 src/psc/scope/context.h         | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..96518f3 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -43,6 +43,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInsideRecord(dataType))
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         array->init(ctx);
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 1d39a16..b4b7f29 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -20,6 +20,8 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInsideRecord(dataType))
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
     }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 2940137..e93ca34 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -128,6 +128,14 @@ Context *Context::getOuterTypeContext() {
     return isCompositeCtx ? parent : getGlobalContext();
 }
 
+bool Context::isInsideRecord(const PSC::DataType &type) const {
+    if (type.type != PSC::DataType::COMPOSITE) return false;
+    for (const Context *ctx = this; ctx != nullptr && ctx->isCompositeCtx; ctx = ctx->parent) {
+        if (ctx->name == *type.name) return true;
+    }
+    return false;
+}
+
 const std::string &Context::getName() const {
     return name;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index b0a1d56..c8e2c2d 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -61,6 +61,9 @@ namespace PSC {
         // Where type names not defined in this context are looked up
         Context *getOuterTypeContext();
 
+        // Whether fields of the record type `type` are being declared
+        bool isInsideRecord(const PSC::DataType &type) const;
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
-- 
2.43.0


From 9df5492d7864f88fb2a32ce86159f087ac7eb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 24/41] fix: an error while the fields of a record are set up
 has a complete traceback

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 4 ++++
 src/psc/error.cpp               | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 96518f3..5d4d14a 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -47,7 +47,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        ctx.switchToken = &token;
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b4b7f29..4894e1c 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -23,7 +23,9 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (ctx.isInsideRecord(dataType))
             throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
+        ctx.switchToken = &token;
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
@@ -95,7 +97,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
         
+        ctx.switchToken = &token;
         var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
+        ctx.switchToken = nullptr;
         ctx.addVariable(var);
     }
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..8806b40 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,9 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
+        os << "\n" << ctx->getName();
+        if (ctx->switchToken != nullptr)
+            os << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
     }
-- 
2.43.0


From 9a08ded3e3cb4fd2512e5c66aefcd211454a7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 25/41] fix: the index expressions of a BYREF argument are
 evaluated once

---
 src/nodes/functions/function.cpp  | 28 ++++++++++++++++++----------
 src/nodes/functions/procedure.cpp | 28 ++++++++++++++++++----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..9e4870d 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -65,12 +65,26 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = function->parameters.size();
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
+        AccessNode *accsNode = nullptr;
+        if (i < nArgs && function->parameters[i].byRef) accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode == nullptr) {
+            argResults.push_back(args[i]->evaluate(ctx));
+        } else {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(std::make_unique<NodeResult>(nullptr, argVariables[i]->type));
+        }
         argTypes.push_back(argResults[i]->type);
     }
 
-    size_t nArgs = function->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
@@ -88,17 +102,11 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (argVariables[i] == nullptr) {
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
             }
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
 
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..362824a 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -59,12 +59,26 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = procedure->parameters.size();
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
+        AccessNode *accsNode = nullptr;
+        if (i < nArgs && procedure->parameters[i].byRef) accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode == nullptr) {
+            argResults.push_back(args[i]->evaluate(ctx));
+        } else {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(std::make_unique<NodeResult>(nullptr, argVariables[i]->type));
+        }
         argTypes.push_back(argResults[i]->type);
     }
 
-    size_t nArgs = procedure->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
@@ -81,16 +95,10 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (argVariables[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
 
-- 
2.43.0


From d2c439954ee635f557023368e4d61fb25c415fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 26/41] fix: BREAK and CONTINUE outside a loop of their own
 procedure are runtime errors

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..2c5d162 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include "nodes/loop/control.h"
+#include "psc/error.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From 51e346a4bf0f8304105f3e2550ddf66c0c102066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 27/41] fix: CONTINUE in REPEAT goes on to the UNTIL condition

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..cb4a43c 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -14,9 +14,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {}
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From b51e7d52db1c0cbd8de3ed080bb9690d02693591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 28/41] fix: CASE ranges work for CHAR and compare INTEGER
 values exactly

---
 src/nodes/selection/case.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..c5edd78 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -42,7 +42,8 @@ bool EqualsCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
             return value.get<PSC::Pointer>().getValue() == res->get<PSC::Pointer>().getValue();
         case PSC::DataType::COMPOSITE:
             return false;
-        case PSC::DataType::NONE: ;
+        case PSC::DataType::NONE:
+            throw PSC::RuntimeError(node.getToken(), ctx, "Expected a value for CASE");
     }
     std::abort();
 }
@@ -53,6 +54,20 @@ RangeCaseComponent::RangeCaseComponent(PSC::Block &block, Node &lowerBound, Node
 {}
 
 bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
+    if (value.type == PSC::DataType::CHAR) {
+        auto lower = lowerBound.evaluate(ctx);
+        if (lower->type != PSC::DataType::CHAR)
+            throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type CHAR");
+
+        auto upper = upperBound.evaluate(ctx);
+        if (upper->type != PSC::DataType::CHAR)
+            throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type CHAR");
+
+        PSC::int_t testChar = value.get<PSC::Char>().toInteger()->value;
+        return lower->get<PSC::Char>().toInteger()->value <= testChar
+            && testChar <= upper->get<PSC::Char>().toInteger()->value;
+    }
+
     PSC::real_t testValue;
     if (value.type == PSC::DataType::INTEGER) testValue = value.get<PSC::Integer>().value;
     else if (value.type == PSC::DataType::REAL) testValue = value.get<PSC::Real>().value;
@@ -72,7 +87,14 @@ bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
     else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
     else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
-    return (lowerVal <= testValue) && (testValue <= upperVal);
+    bool aboveLower = lowerVal <= testValue;
+    bool belowUpper = testValue <= upperVal;
+    if (value.type == PSC::DataType::INTEGER) {
+        PSC::int_t testInt = value.get<PSC::Integer>().value;
+        if (lower->type == PSC::DataType::INTEGER) aboveLower = lower->get<PSC::Integer>().value <= testInt;
+        if (upper->type == PSC::DataType::INTEGER) belowUpper = testInt <= upper->get<PSC::Integer>().value;
+    }
+    return aboveLower && belowUpper;
 }
 
 
-- 
2.43.0


From 50d84ac5d68550d823521fb6acfe7bd008adfe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 29/41] fix: a pointer into a finished activation never matches
 a later activation at the same address

---
 src/nodes/variable/resolver.cpp | 11 +++--------
 src/psc/scope/block.cpp         | 16 +++++-----------
 src/psc/scope/context.cpp       |  5 +++++
 src/psc/scope/context.h         |  3 +++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 14 +++++++++-----
 6 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 50703b5..00d0606 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,18 +51,13 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
-
     PSC::Variable *ptrRefVar = ptr.getValue();
     if (ptrRefVar == nullptr)
         throw PSC::RuntimeError(token, ctx, "Attempt to access uninitalized pointer");
 
+    if (!ptr.isAlive(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
+
     return *ptrRefVar;
 }
 
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..544d3a1 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -48,19 +48,13 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
+            PSC::Variable *ptrValue = resPtr.getValue();
 
             std::cout << resPtr.definitionName << ": ";
-            if (valid) {
-                PSC::Variable *ptrValue = resPtr.getValue();
-                const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
-                std::cout << valueStr;
+            if (ptrValue == nullptr) {
+                std::cout << "null";
+            } else if (resPtr.isAlive(ctx)) {
+                std::cout << ptrValue->name;
             } else {
                 std::cout << "{DELETED}";
             }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index e93ca34..0c5b4f1 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -114,6 +114,11 @@ std::unique_ptr<Context> Context::createGlobalContext() {
     return ctx;
 }
 
+std::size_t Context::nextId() {
+    static std::size_t lastId = 0;
+    return ++lastId;
+}
+
 Context *Context::getParent() const {
     return parent;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index c8e2c2d..0d8d379 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,9 +27,12 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        static std::size_t nextId();
+
     public:
         const Token *switchToken = nullptr;
 
+        const std::size_t id = nextId(); // Never reused
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index c0aeaa9..750a9a3 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -292,7 +292,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        std::size_t ctxId = 0; // Activation that owns the target
 
     public:
         const std::string &definitionName; // Owned by the type's definition, and identifies it
@@ -307,7 +307,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // Whether the activation that owns the target is `ctx` or one of its callers
+        bool isAlive(const Context &ctx) const;
 
         const PointerTypeDefinition &getDefinition(Context &ctx) const;
     
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 225ee09..9aaedae 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -48,29 +48,33 @@ Pointer::Pointer(const std::string &name)
     : definitionName(name) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), ctxId(other.ctxId), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    ctxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (definitionName != other.definitionName) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    ctxId = other.ctxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isAlive(const Context &ctx) const {
+    for (const Context *c = &ctx; c != nullptr; c = c->getParent()) {
+        if (c->id == ctxId) return true;
+    }
+    return false;
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-- 
2.43.0


From 388f34b2041ddefc8e4f23c51be2385a180f8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 30/41] fix: FOR, INPUT, READFILE and GETRECORD cannot change a
 constant

---
 src/nodes/io/file.cpp  | 5 +++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..f8498c1 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     }
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
 
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
@@ -182,6 +184,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
+    if (variable != nullptr && variable->isConstant)
+        throw PSC::ConstAssignError(token, ctx, variable->name);
+
     if (variable != nullptr) {
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..0fd0d29 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..c8b8ed0 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -22,6 +22,8 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
 
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
 
 
     auto startRes = start.evaluate(ctx);
-- 
2.43.0


From bc469ae348989e416cea8b0f3631dd3d08b46210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 31/41] fix: READFILE only works on READ handles, and a failing
 READFILE changes nothing

---
 src/nodes/io/file.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index f8498c1..90cbfa8 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -35,13 +35,9 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
     PSC::Variable *var = ctx.getVariable(identifier.value);
-    if (var == nullptr) {
-        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
-        ctx.addVariable(var);
-    }
-    if (var->type != PSC::DataType::STRING)
+    if (var != nullptr && var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
-    if (var->isConstant)
+    if (var != nullptr && var->isConstant)
         throw PSC::ConstAssignError(token, ctx, var->name);
 
     auto &filename = filenameRes->get<PSC::String>();
@@ -50,10 +46,14 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::FileNotOpenError(token, ctx, filename.value);
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
+
+    if (var == nullptr) {
+        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
+        ctx.addVariable(var);
+    }
+    var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From cf684053d6927e9b888e1ed8dd3bccf24bc6e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 32/41] fix: INPUT of an empty line into a CHAR is a runtime
 error

---
 src/nodes/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 0fd0d29..1b3bc37 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,6 +99,8 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
+            if (inputStr.value.empty())
+                throw PSC::RuntimeError(token, ctx, "Expected a character for INPUT");
             var->get<PSC::Char>() = inputStr.value.front();
             break;
         case PSC::DataType::STRING:
-- 
2.43.0


From d92dda9bd984de4bcce82608b9f0682fa0bf2ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 33/41] fix: WRITEFILE looks the file up after evaluating the
 value to write

---
 src/nodes/io/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 90cbfa8..452809d 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -67,6 +67,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
     
+    auto nodeRes = data.evaluate(ctx);
+
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
@@ -76,7 +78,6 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     else if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
-    auto nodeRes = data.evaluate(ctx);
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
-- 
2.43.0


From 6ddadde48792c2da32b87d7604f2e0b671e92062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 34/41] fix: EOF is TRUE as soon as no unread line remains

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..df39228 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -53,7 +53,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
-- 
2.43.0


From 0bab1f78a286d1923f74f453ed1953c3cb9b39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 35/41] fix: the first record of a random file may continue
 over several lines

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index df39228..35804bb 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
-- 
2.43.0


From 64248a13684f327583ab49d6adc85f3600dab7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 36/41] fix: a CHAR line break inside a record reads back, and
 malformed STRING records are rejected

---
 src/psc/types/character.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..297e4d8 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,6 +52,7 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (value == '\n' && in.peek() == '#') in.ignore(1);
 
     return !in.fail();
 }
@@ -124,20 +125,19 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
+    size_t length = 0;
+    in >> length;
     if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
 
-    char *buf = new char[length];
     in.ignore(1); // whitespace
-    in.read(buf, length);
     value.clear();
-    value.reserve(length);
+    char prev = '\0';
     for (size_t i = 0; i < length; i++) {
-        if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
-        value += buf[i];
+        char c;
+        if (!in.get(c)) return false;
+        if (c != '#' || prev != '\n') value += c;
+        prev = c;
     }
-    delete[] buf;
 
     return true;
 }
-- 
2.43.0


From 03bb6b02411ada9001d9101892d5316eed36e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 37/41] fix: a failing GETRECORD leaves its target unchanged

---
 src/nodes/io/file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 452809d..2a77e77 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -189,11 +189,15 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         throw PSC::ConstAssignError(token, ctx, variable->name);
 
     if (variable != nullptr) {
-        if (!file->getRecord(*variable, ctx))
+        PSC::Variable record(*variable, variable->parent);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        variable->assign(record.get<PSC::Value>());
     } else {
-        if (!file->getRecord(*array, ctx))
+        PSC::Array record(*array, &ctx);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        array->copyData(record);
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From 7d80e173e20a6d67d645443d2835c602c9a619ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 38/41] fix: OPENFILE, WRITEFILE and CLOSEFILE report what the
 operating system rejects

---
 src/nodes/io/file.cpp |  6 ++++--
 src/psc/file.cpp      | 34 +++++++++++++++++++++++++++-------
 src/psc/file.h        |  9 ++++++---
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 2a77e77..433ef0e 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -107,7 +107,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -126,7 +127,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 35804bb..e4f7632 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -11,18 +11,22 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -51,12 +55,17 @@ FileMode File::getMode() {
     return mode;
 }
 
+bool File::isOpen() {
+    return open;
+}
+
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -64,6 +73,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
+            success = !ofile->fail();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -73,10 +83,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                success = !ofile->fail();
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -85,8 +97,10 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     *ofile << data.value << "\n";
+    ofile->flush();
+    return !ofile->fail();
 }
 
 bool File::seek(const Integer &address) {
@@ -116,7 +130,10 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    std::error_code error;
+    fs::file_status status = fs::status(fs::path(name.value), error);
+    if (fs::is_directory(status)) return false;
+    if (!fs::exists(status)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -125,7 +142,9 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+    files.emplace_back(std::move(file));
     return true;
 }
 
@@ -136,13 +155,14 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return false;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..7a0492a 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -31,13 +31,16 @@ namespace PSC {
 
         FileMode getMode();
 
+        bool isOpen();
+
         bool eof();
 
-        void close();
+        // Returns false if something written could not be stored
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -55,6 +58,6 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        bool closeFile(const String &name);
     };
 }
-- 
2.43.0


From 200e0274bb3dd5b898823951285923ffad9cae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 39/41] fix: DIV and MOD of the smallest INTEGER by -1 do not
 trap

---
 src/psc/types/numeric.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..5936bcb 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // The quotient of the smallest INTEGER and -1 is not representable, and traps
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,10 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t dividend = ((Integer*) this)->value;
+        int_t divisor = (Integer&) other;
+        // The quotient of the smallest INTEGER and -1 is not representable, and traps
+        int_t x = divisor == -1 ? (int_t) (0UL - (unsigned long) dividend) : dividend / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 4d0e96fbb194ea79078887e97b298b3c068dbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 40/41] fix: the REPL runs a last line that has no line break

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 45119aa..28f404d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -68,7 +68,7 @@ bool getLine(std::string &line, const char *prompt) {
 #else
     std::cout << prompt << std::flush;
     std::getline(std::cin, line);
-    if (std::cin.eof()) return false;
+    if (std::cin.fail()) return false;
 #endif
 
     return true;
-- 
2.43.0


From 27654dae76225c9dd20d7df4ceeeb6d4e731e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 41/41] fix: REPL entries starting with an identifier that
 begins like a keyword are ordinary statements

---
 src/launch/repl.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..294c810 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -19,6 +19,15 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+// Whether the first word of `code`, ignoring indentation, is `keyword`
+static bool startsWithWord(const std::string &code, const std::string &keyword) {
+    size_t start = code.find_first_not_of(" \t");
+    if (start == std::string::npos || code.compare(start, keyword.size(), keyword) != 0) return false;
+
+    size_t end = start + keyword.size();
+    return end == code.size() || !(std::isalnum((unsigned char) code[end]) || code[end] == '_');
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -37,7 +46,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (code.starts_with("RUNFILE") && startsWithWord(code, "RUNFILE")) {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -59,7 +68,7 @@ bool startREPL() {
         }
 
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
+            if (startsWithWord(code, keyword)) {
                 if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
                 std::string line = " ";
                 while (line.size() > 0) {
-- 
2.43.0

