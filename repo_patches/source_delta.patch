From 7c57794d65cd02965bd9d0434352b1b2f88fe375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 01/53] fix: nested and_then/or_else crashed the compiler

The PHI of a short-circuit expression named the first block of its right-hand
side as predecessor, which is wrong when that side itself has several blocks.
---
 expr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 381318c..57d5257 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1043,12 +1043,14 @@ static llvm::Value* ShortCtOr(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // Generating rhs may have added more blocks.
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(btrue, originBlock);
-    phi->addIncoming(condr, falseBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
@@ -1067,12 +1069,14 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
     llvm::Value* r = rhs->CodeGen();
     llvm::Value* condr = builder.CreateICmpNE(r, bfalse, "condr");
 
+    // Generating rhs may have added more blocks.
+    llvm::BasicBlock* rhsBlock = builder.GetInsertBlock();
     builder.CreateBr(mergeBB);
 
     builder.SetInsertPoint(mergeBB);
     llvm::PHINode* phi = builder.CreatePHI(Types::Get<Types::BoolDecl>()->LlvmType(), 2, "phi");
     phi->addIncoming(bfalse, originBlock);
-    phi->addIncoming(condr, trueBB);
+    phi->addIncoming(condr, rhsBlock);
     return phi;
 }
 
-- 
2.43.0


From 9698ca34be9455e3f707e24a3132b79d7c7a2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 02/53] fix: decimal literals above maxint and constants below
 -maxint are 64-bit integers

---
 lexer.cpp  | 8 +++++++-
 parser.cpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 249a9fc..4e639eb 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -60,6 +60,7 @@ static T SafeConvert(const std::string& num, bool& err, FN fn, int base)
 {
     err = false;
     char* endPtr = 0;
+    errno = 0;
     T     v = fn(num.c_str(), &endPtr, base);
     if (*endPtr != 0 || (v == std::numeric_limits<T>::max() && errno == ERANGE))
     {
@@ -72,10 +73,15 @@ static Token ConvertInt(const std::string& num, const Location& w, int base)
 {
     bool     err;
     uint64_t v = SafeConvert<uint64_t>(num, err, strtoull, base);
-    if (err)
+    if (err || (base == 10 && v > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())))
     {
 	return Token(Token::Overflow, w);
     }
+    // In other bases, this is the bit pattern of a 32-bit integer.
+    if (base != 10 && v <= std::numeric_limits<uint32_t>::max())
+    {
+	v = static_cast<int64_t>(static_cast<int32_t>(v));
+    }
     return Token(Token::Integer, w, v);
 }
 
diff --git a/parser.cpp b/parser.cpp
index a10a0bc..a595d2d 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2136,7 +2136,7 @@ ExprAST* Parser::ParseIntegerExpr(const Token& token)
     const Location&  loc = token.Loc();
     Types::TypeDecl* type = Types::Get<Types::IntegerDecl>();
 
-    if (val > std::numeric_limits<unsigned int>::max())
+    if (val > std::numeric_limits<int>::max() || val < std::numeric_limits<int>::min())
     {
 	type = Types::Get<Types::Int64Decl>();
     }
-- 
2.43.0


From c68803c86f60f0c094a0434c4f56aa6367aa2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 03/53] fix: integer subranges mix with longint and real in
 expressions

---
 types.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.cpp b/types.cpp
index 7d3c4c7..4ac4769 100644
--- a/types.cpp
+++ b/types.cpp
@@ -497,6 +497,10 @@ namespace Types
 	{
 	    return ty;
 	}
+	if (IsNumeric(ty))
+	{
+	    return baseType->CompatibleType(ty);
+	}
 	return 0;
     }
 
-- 
2.43.0


From 9d0a507bcbe668962aa3aeb4993b98ffd4b435a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 04/53] fix: 64-bit pow, 1 pow negative, and a unary operator
 whose operand changes type

---
 expr.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 57d5257..4f25356 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1083,6 +1083,7 @@ static llvm::Value* ShortCtAnd(ExprAST* lhs, ExprAST* rhs)
 // Calculate base ^ exp.
 //    if (e < 0) {
 //	if (b == -1 && (e & 1)) return b;
+//	if (b == 1) return b;
 //	if (b > 1) return 0;
 //    }
 //    int res = 1;
@@ -1104,17 +1105,19 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     llvm::BasicBlock* moreMergeBB = llvm::BasicBlock::Create(theContext, "moreMerge", theFunction);
     llvm::BasicBlock* doneBB = llvm::BasicBlock::Create(theContext, "powdone", theFunction);
 
-    llvm::Constant* one = MakeIntegerConstant(1);
-    llvm::Constant* zero = MakeIntegerConstant(0);
+    llvm::Constant* one = MakeConstant(1, ty);
+    llvm::Constant* zero = MakeConstant(0, ty);
     llvm::Value*    res = CreateTempAlloca(ty);
     builder.CreateStore(one, res);
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* intTy = ty->LlvmType();
 
     llvm::Value* expneg = builder.CreateICmpSLT(exp, zero, "expneg");
     builder.CreateCondBr(expneg, expNegBB, loopBB);
     // e < 0 case:
     builder.SetInsertPoint(expNegBB);
-    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeIntegerConstant(-1), "isNeg1");
+    llvm::Value* bIsMinus1 = builder.CreateICmpEQ(base, MakeConstant(-1, ty), "isNeg1");
+    llvm::Value* bIs1 = builder.CreateICmpEQ(base, one, "is1");
+    llvm::Value* negRes = builder.CreateSelect(bIs1, one, zero, "negRes");
     builder.CreateCondBr(bIsMinus1, oddEvenBB, doneBB);
 
     builder.SetInsertPoint(oddEvenBB);
@@ -1147,7 +1150,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     phiMerge->addIncoming(valEven, moreEvenBB);
     phiMerge->addIncoming(valOdd, moreOddBB);
     llvm::PHINode* phiMerge2 = builder.CreatePHI(ty->LlvmType(), 2, "phi");
-    phiMerge2->addIncoming(MakeIntegerConstant(2), moreEvenBB);
+    phiMerge2->addIncoming(MakeConstant(2, ty), moreEvenBB);
     phiMerge2->addIncoming(one, moreOddBB);
     builder.CreateStore(phiMerge, res);
     phiLoop->addIncoming(builder.CreateSub(phiLoop, phiMerge2), moreMergeBB);
@@ -1156,7 +1159,7 @@ static llvm::Value* PowerInt(llvm::Value* base, llvm::Value* exp, Types::TypeDec
     builder.SetInsertPoint(doneBB);
     llvm::PHINode* phi = builder.CreatePHI(ty->LlvmType(), 3, "phi");
     // e < 0, b != -1
-    phi->addIncoming(zero, expNegBB);
+    phi->addIncoming(negRes, expNegBB);
     // e < 0, e is odd, b = -1
     phi->addIncoming(base, oddEvenBB);
     // all other cases.
@@ -1555,12 +1558,9 @@ llvm::Value* UnaryExprAST::CodeGen()
 
 void UnaryExprAST::UpdateType(Types::TypeDecl* ty)
 {
-    if (type != ty)
-    {
-	ICE_IF(type, "Type shouldn't be update more than once");
-	ICE_IF(!ty, "Must supply a valid type");
-	type = ty;
-    }
+    // The type of the operand may have been unknown, or changed, since this was parsed.
+    ICE_IF(!ty, "Must supply a valid type");
+    type = ty;
 }
 
 void CallExprAST::DoDump() const
-- 
2.43.0


From 19e4244d50348863b985e3a7aaec5f1eb17dbfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 05/53] fix: abs, odd, sign, min, max, succ and pred with
 longint arguments

---
 builtin.cpp   | 27 +++++++++++++++++++--------
 semantics.cpp |  6 ++++--
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 8ccfdb7..5abb796 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -546,6 +546,14 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
+	// The result is of the wider type
+	const Types::TypeDecl* ty = args[0]->Type()->CompatibleType(args[1]->Type());
+	if (!ty)
+	{
+	    return ErrorType::WrongArgType;
+	}
+	args[0] = Recast(args[0], ty);
+	args[1] = Recast(args[1], ty);
 	return ErrorType::Ok;
     }
 
@@ -587,7 +595,7 @@ namespace Builtin
 	if (IsIntegral(args[0]->Type()))
 	{
 	    llvm::Value* neg = builder.CreateNeg(a, "neg");
-	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeIntegerConstant(0), "abscond");
+	    llvm::Value* cmp = builder.CreateICmpSGE(a, MakeConstant(0, args[0]->Type()), "abscond");
 	    llvm::Value* res = builder.CreateSelect(cmp, a, neg, "abs");
 	    return res;
 	}
@@ -597,7 +605,7 @@ namespace Builtin
     llvm::Value* FunctionOdd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* v = args[0]->CodeGen();
-	v = builder.CreateAnd(v, MakeIntegerConstant(1));
+	v = builder.CreateAnd(v, MakeConstant(1, args[0]->Type()));
 	return builder.CreateTrunc(v, Types::Get<Types::BoolDecl>()->LlvmType(), "odd");
     }
 
@@ -843,7 +851,8 @@ namespace Builtin
     llvm::Value* FunctionSucc::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? builder.CreateSExtOrTrunc(args[1]->CodeGen(), a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateAdd(a, b, "succ");
     }
@@ -858,7 +867,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
-	if (args.size() == 2 && !llvm::isa<Types::IntegerDecl>(args[1]->Type()))
+	if (args.size() == 2 && !Types::Get<Types::IntegerDecl>()->AssignableType(args[1]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -868,7 +877,8 @@ namespace Builtin
     llvm::Value* FunctionPred::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	llvm::Value* b = (args.size() == 2) ? args[1]->CodeGen() : MakeConstant(1, args[0]->Type());
+	llvm::Value* b = (args.size() == 2) ? builder.CreateSExtOrTrunc(args[1]->CodeGen(), a->getType())
+	                                    : MakeConstant(1, args[0]->Type());
 
 	return builder.CreateSub(a, b, "pred");
     }
@@ -1563,6 +1573,7 @@ namespace Builtin
     {
 	llvm::Value* v = args[0]->CodeGen();
 	llvm::Value* zero = MakeIntegerConstant(0);
+	llvm::Value* vzero = llvm::Constant::getNullValue(v->getType());
 	llvm::Value* one = MakeIntegerConstant(1);
 	llvm::Value* mone = MakeIntegerConstant(-1);
 	if (llvm::isa<Types::RealDecl>(args[0]->Type()))
@@ -1575,11 +1586,11 @@ namespace Builtin
 	}
 	if (IsUnsigned(args[0]->Type()))
 	{
-	    llvm::Value* sel1 = builder.CreateICmpUGT(v, zero, "gt");
+	    llvm::Value* sel1 = builder.CreateICmpUGT(v, vzero, "gt");
 	    return builder.CreateSelect(sel1, one, zero, "sgn1");
 	}
-	llvm::Value* sel1 = builder.CreateICmpSGT(v, zero, "gt");
-	llvm::Value* sel2 = builder.CreateICmpSLT(v, zero, "lt");
+	llvm::Value* sel1 = builder.CreateICmpSGT(v, vzero, "gt");
+	llvm::Value* sel2 = builder.CreateICmpSLT(v, vzero, "lt");
 	llvm::Value* res = builder.CreateSelect(sel1, one, zero, "sgn1");
 	return builder.CreateSelect(sel2, mone, res, "sgn2");
     }
diff --git a/semantics.cpp b/semantics.cpp
index 5768110..613b59e 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -377,12 +377,12 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	return rty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs))
+    if (llvm::isa<Types::RangeDecl>(lty) && llvm::isa<IntegerExprAST>(b->rhs) && lty->Type() == rty->Type())
     {
 	return lty;
     }
 
-    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs))
+    if (llvm::isa<Types::RangeDecl>(rty) && llvm::isa<IntegerExprAST>(b->lhs) && lty->Type() == rty->Type())
     {
 	return rty;
     }
@@ -689,6 +689,8 @@ void TypeCheckVisitor::Check<BuiltinExprAST>(BuiltinExprAST* b)
 	Error(b, "Builtin function: '" + b->bif->Name() + "' wrong argument type(s)");
 	break;
     case Builtin::ErrorType::Ok:
+	// May depend on the type of the arguments, which wasn't known when this was parsed.
+	b->type = b->bif->Type();
 	break;
     }
 }
-- 
2.43.0


From 870ab75ded5fafad830cfe9944b3fc3f4e364d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 06/53] fix: writestr of a real without precision uses the same
 digits as write

---
 runtime/write.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index abedf88..a2a0f14 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -58,10 +58,7 @@ void __write_S_real(String* str, double v, int width, int precision)
 	{
 	    width = 13;
 	}
-	if (precision == 0)
-	{
-	    precision = (width > 8) ? width - 7 : 1;
-	}
+	precision = (width > 8) ? width - 7 : 1;
     }
 
     int n = snprintf(buffer, sizeof(buffer), (scientific) ? "% *.*E" : "%*.*f", width, precision, v);
-- 
2.43.0


From db8c201647997563d29c3910f0a004952c5fde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 07/53] fix: enumerations assign from and to their subranges,
 and write under -m32

---
 expr.cpp  |  4 ++++
 types.cpp | 16 +++++++++++-----
 types.h   |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 4f25356..0b9526c 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3055,6 +3055,10 @@ llvm::Value* WriteAST::CodeGen()
 	    {
 		ICE_IF(arg.precision, "Expected no precision for types other than REAL");
 	    }
+	    if (auto rd = llvm::dyn_cast<Types::RangeBaseDecl>(type))
+	    {
+		type = rd->SubType();
+	    }
 	    if (auto* etype = llvm::dyn_cast<Types::EnumDecl>(type))
 	    {
 		llvm::Value* e2s = MakeEnumToString(etype);
diff --git a/types.cpp b/types.cpp
index 4ac4769..022f82f 100644
--- a/types.cpp
+++ b/types.cpp
@@ -482,9 +482,9 @@ namespace Types
     {
 	if (const auto rty = llvm::dyn_cast<RangeDecl>(ty))
 	{
-	    return rty->Type() == Type() && *range == *rty->range;
+	    return *baseType == *rty->baseType && *range == *rty->range;
 	}
-	return Type() == ty->Type();
+	return *baseType == *ty;
     }
 
     const TypeDecl* RangeBaseDecl::CompatibleType(const TypeDecl* ty) const
@@ -493,7 +493,7 @@ namespace Types
 	{
 	    return this;
 	}
-	if (ty->Type() == Type())
+	if (*baseType == *ty)
 	{
 	    return ty;
 	}
@@ -506,7 +506,7 @@ namespace Types
 
     const TypeDecl* RangeBaseDecl::AssignableType(const TypeDecl* ty) const
     {
-	if (SameAs(ty) || ty->Type() == Type())
+	if (SameAs(ty) || *baseType == *ty)
 	{
 	    return ty;
 	}
@@ -542,6 +542,10 @@ namespace Types
 
     bool EnumDecl::SameAs(const TypeDecl* ty) const
     {
+	if (const auto rty = llvm::dyn_cast<RangeBaseDecl>(ty))
+	{
+	    return SameAs(rty->SubType());
+	}
 	if (const auto ety = llvm::dyn_cast<EnumDecl>(ty))
 	{
 	    if (ety->Type() != Type() || values.size() != ety->values.size())
@@ -1542,7 +1546,9 @@ namespace Types
 		new FieldDecl("offset", new ArrayDecl(Get<IntegerDecl>(), r), false)
 	    };
 	    enum2strType = new RecordDecl(fields, nullptr);
-	    ICE_IF(sizeof(EnumToString) != enum2strType->Size(),
+	    // The target may have a different pointer size to the host.
+	    const size_t ptrSize = fields[0]->Size();
+	    ICE_IF(sizeof(EnumToString) - sizeof(char*) != enum2strType->Size() - ptrSize,
 	           "Runtime and EnumToString type should match in size");
 	}
 	return enum2strType;
diff --git a/types.h b/types.h
index 5876fc4..7c4bb6c 100644
--- a/types.h
+++ b/types.h
@@ -406,7 +406,7 @@ namespace Types
     public:
 	BoolDecl() : EnumDecl(TK_Boolean, std::vector<std::string>{ "false", "true" }, this) {}
 	void        DoDump() const override;
-	bool        SameAs(const TypeDecl* ty) const override { return ty == this; }
+	bool        SameAs(const TypeDecl* ty) const override { return ty->Type() == kind; }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
 
     protected:
-- 
2.43.0


From 03afc7ed1d5522e3e3daa8269f80f8930bbd3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 08/53] fix: array indexes of types of different sizes are
 computed in integer

---
 expr.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 0b9526c..8a0b087 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -476,38 +476,25 @@ void ArrayExprAST::DoDump() const
     }
 }
 
-static Types::TypeDecl* FindIndexType(const std::vector<ExprAST*>& indices)
-{
-    ICE_IF(indices.size() == 0, "Expect at least one index");
-    Types::TypeDecl* type = indices[0]->Type();
-    size_t           size = type->Size();
-    for (size_t i = 1; i < indices.size(); i++)
-    {
-	if (size < indices[i]->Type()->Size())
-	{
-	    type = indices[i]->Type();
-	}
-    }
-    return type;
-}
-
 llvm::Value* ArrayExprAST::Address()
 {
     TRACE();
     llvm::Value* v = MakeAddressable(expr);
     ICE_IF(!v, "Expected variable to have an address");
     EnsureSized();
-    llvm::Value*     totalIndex = 0;
-    Types::TypeDecl* indexType = FindIndexType(indices);
+    llvm::Value* totalIndex = 0;
+    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
     for (size_t i = 0; i < indices.size(); i++)
     {
 	auto range = llvm::dyn_cast<RangeReduceAST>(indices[i]);
 	ICE_IF(!range, "Expected a range here");
 	llvm::Value* index = range->CodeGen();
 	ICE_IF(!index, "Expression failed for index");
+	// Now it is a number of elements, whatever the type of the index.
+	index = builder.CreateIntCast(index, intTy, true);
 	if (indexmul[i] != 1)
 	{
-	    index = builder.CreateMul(index, MakeConstant(indexmul[i], indexType));
+	    index = builder.CreateMul(index, MakeIntegerConstant(indexmul[i]));
 	}
 	if (!totalIndex)
 	{
-- 
2.43.0


From e9119c10b33ed432288dc4a3eeafa8311bbe4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 09/53] fix: for-in loops over a copy of the set, with control
 flow in the body

---
 expr.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 8a0b087..171b90d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2441,7 +2441,9 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::Constant* rangeStart = MakeIntegerConstant(sd->GetRange()->Start());
     llvm::Constant* words = MakeIntegerConstant(sd->SetWords());
 
-    llvm::Value* setV = MakeAddressable(expr->start);
+    // The loop is over the set as it is now, even if the loop-body changes it.
+    llvm::Value* setV = CreateTempAlloca(sd);
+    builder.CreateStore(builder.CreateLoad(sd->LlvmType(), MakeAddressable(expr->start)), setV);
     llvm::Value* one = MakeIntegerConstant(1);
     llvm::Value* zero = MakeIntegerConstant(0);
     llvm::Value* shift = MakeIntegerConstant(Types::SetDecl::SetPow2Bits);
@@ -2477,13 +2479,12 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
     llvm::PHINode* idxPhi = builder.CreatePHI(index->getType(), 2, "idxPhi");
     idxPhi->addIncoming(index, beforeBB);
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
-    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr);
-
     llvm::Value* cmp = builder.CreateICmpSLT(idxPhi, words);
     builder.CreateCondBr(cmp, preLoopBB, afterBB);
 
     builder.SetInsertPoint(preLoopBB);
+    llvm::Value*         bitsetAddr = builder.CreateGEP(intTy, setV, idxPhi, "valueindex");
+    llvm::Value*         bitset = builder.CreateLoad(intTy, bitsetAddr);
     llvm::FunctionCallee cttz = GetFunction(intTy, { intTy, Types::Get<Types::BoolDecl>()->LlvmType() },
                                             "llvm.cttz.i32");
     llvm::Value*         isZero = builder.CreateICmpEQ(bitset, zero);
@@ -2497,14 +2498,14 @@ llvm::Value* GenForInSet(ForExprAST* expr, Types::SetDecl* sd)
 
     llvm::Value* sumVar = builder.CreateAdd(builder.CreateAdd(pos, builder.CreateShl(idxPhi, shift)),
                                             rangeStart);
-    llvm::Value* sumT = builder.CreateTrunc(sumVar, expr->variable->Type()->LlvmType());
+    llvm::Value* sumT = builder.CreateIntCast(sumVar, expr->variable->Type()->LlvmType(), true);
     builder.CreateStore(sumT, var);
 
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     bitset = builder.CreateAnd(phi, builder.CreateNot(builder.CreateShl(one, pos)));
     isZero = builder.CreateICmpEQ(bitset, zero);
-    phi->addIncoming(bitset, loopBB);
+    phi->addIncoming(bitset, builder.GetInsertBlock());
     builder.CreateCondBr(isZero, nextLoopBB, loopBB);
 
     builder.SetInsertPoint(nextLoopBB);
@@ -2564,7 +2565,7 @@ llvm::Value* GenForInArr(ForExprAST* expr, Types::ArrayDecl* ad)
     ICE_IF(!expr->body->CodeGen(), "Failed to generate loop body");
 
     index = builder.CreateAdd(idxPhi, one);
-    idxPhi->addIncoming(index, loopBB);
+    idxPhi->addIncoming(index, builder.GetInsertBlock());
     builder.CreateBr(preLoopBB);
 
     builder.SetInsertPoint(afterBB);
-- 
2.43.0


From 75903078b54e50477e3748b175e2bab725a557be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 10/53] fix: a char array is assigned a char or a shorter
 string, extended with blanks

---
 expr.cpp      | 24 +++++++++++++++++++++++-
 semantics.cpp |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 171b90d..b26d37e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -2274,6 +2274,17 @@ llvm::Value* AssignExprAST::AssignSet()
     return v;
 }
 
+// A string that is shorter than the array of char it is assigned to is extended with blanks.
+static void FillWithBlanks(llvm::Value* dest, size_t from, size_t size)
+{
+    if (from < size)
+    {
+	Types::TypeDecl* charDecl = Types::Get<Types::CharDecl>();
+	llvm::Value*     rest = builder.CreateGEP(charDecl->LlvmType(), dest, MakeIntegerConstant(from));
+	builder.CreateMemSet(rest, MakeConstant(' ', charDecl), size - from, llvm::Align(1));
+    }
+}
+
 llvm::Value* AssignExprAST::CodeGen()
 {
     TRACE();
@@ -2303,7 +2314,18 @@ llvm::Value* AssignExprAST::CodeGen()
 	llvm::Value* v = rhs->CodeGen();
 	llvm::Align  dest_align{ std::max(AlignOfType(dest1->getType()), MIN_ALIGN) };
 	llvm::Align  src_align{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(dest1, dest_align, v, src_align, str->Str().size());
+	llvm::Value* copy = builder.CreateMemCpy(dest1, dest_align, v, src_align, str->Str().size());
+	FillWithBlanks(dest1, str->Str().size(), lhs->Type()->Size());
+	return copy;
+    }
+
+    if (Types::IsCharArray(lhs->Type()) && llvm::isa<Types::CharDecl>(rhs->Type()))
+    {
+	llvm::Value* v = rhs->CodeGen();
+	llvm::Value* dest = lhsv->Address();
+	builder.CreateStore(v, dest);
+	FillWithBlanks(dest, 1, lhs->Type()->Size());
+	return v;
     }
 
     llvm::Value* dest = lhsv->Address();
diff --git a/semantics.cpp b/semantics.cpp
index 613b59e..e46a7dd 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -579,6 +579,11 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 	return;
     }
 
+    if (Types::IsCharArray(lty) && !llvm::isa<Types::StringDecl>(lty) && llvm::isa<Types::CharDecl>(rty))
+    {
+	return;
+    }
+
     const Types::TypeDecl* ty = lty->AssignableType(rty);
     if (!ty)
     {
-- 
2.43.0


From b82bc7123fc9bcdb25e5f30d7271952ddbd56612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 11/53] fix: type check the right hand side of an assignment
 before the assignment

---
 expr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.h b/expr.h
index 7c8fccd..b60df36 100644
--- a/expr.h
+++ b/expr.h
@@ -492,8 +492,8 @@ public:
     void         accept(ASTVisitor& v) override
     {
 	lhs->accept(v);
-	v.visit(this);
 	rhs->accept(v);
+	v.visit(this);
     }
 
 private:
-- 
2.43.0


From 9cdeb869d633a228eff67bb245f5aff5e766924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 12/53] fix: set constructors and operations on sets of
 different ranges

---
 expr.cpp      | 117 +++++++++++++---------
 expr.h        |  11 ++-
 parser.cpp    |  13 ++-
 semantics.cpp | 263 ++++++++++++++++++++++++++++++++++++++------------
 types.cpp     |  22 +++--
 types.h       |   2 +
 6 files changed, 315 insertions(+), 113 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index b26d37e..66b9d1d 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -871,7 +871,6 @@ void BinaryExprAST::UpdateType(Types::TypeDecl* ty)
 {
     if (type != ty)
     {
-	ICE_IF(type, "Type shouldn't be updated more than once");
 	ICE_IF(!ty, "Must supply valid type");
 
 	type = ty;
@@ -902,16 +901,23 @@ llvm::Value* BinaryExprAST::SetCodeGen()
     if (lhs->Type() && IsIntegral(lhs->Type()) && oper.GetToken() == Token::In)
     {
 	llvm::Value*     l = lhs->CodeGen();
+	if (auto se = llvm::dyn_cast<SetExprAST>(rhs))
+	{
+	    return se->Contains(l, IsUnsigned(lhs->Type()));
+	}
 	llvm::Value*     setV = MakeAddressable(rhs);
 	Types::TypeDecl* type = rhs->Type();
 	int              start = type->GetRange()->Start();
 	llvm::Type*      intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	l = builder.CreateZExt(l, Types::Get<Types::IntegerDecl>()->LlvmType(), "zext.l");
+	l = builder.CreateIntCast(l, intTy, !IsUnsigned(lhs->Type()), "cast.l");
 	l = builder.CreateSub(l, MakeIntegerConstant(start));
+	// Nothing outside the range is in the set - and look for it in the first word, as that is always there.
+	llvm::Value* inRange = builder.CreateICmpULT(l, MakeIntegerConstant(type->GetRange()->Size()), "inrange");
 	llvm::Value* index;
 	if (llvm::dyn_cast<Types::SetDecl>(type)->SetWords() > 1)
 	{
 	    index = builder.CreateLShr(l, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
+	    index = builder.CreateSelect(inRange, index, MakeIntegerConstant(0));
 	}
 	else
 	{
@@ -922,7 +928,8 @@ llvm::Value* BinaryExprAST::SetCodeGen()
 
 	llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitsetaddr");
 	llvm::Value* bit = builder.CreateLShr(bitset, offset);
-	return builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	bit = builder.CreateTrunc(bit, Types::Get<Types::BoolDecl>()->LlvmType());
+	return builder.CreateAnd(bit, inRange);
     }
 
     if (llvm::isa<SetExprAST>(lhs) || (lhs->Type() && llvm::isa<Types::SetDecl>(lhs->Type())))
@@ -3612,7 +3619,7 @@ llvm::Constant* SetExprAST::MakeConstantSetArray()
 	    int  low = le->Int() - start;
 	    int  high = he->Int() - start;
 	    low = std::max(0, low);
-	    high = std::min((int)type->GetRange()->Size(), high);
+	    high = std::min((int)type->GetRange()->Size() - 1, high);
 	    for (int i = low; i <= high; i++)
 	    {
 		elems[i >> Types::SetDecl::SetPow2Bits] |= (1 << (i & Types::SetDecl::SetMask));
@@ -3659,6 +3666,35 @@ llvm::Value* SetExprAST::MakeConstantSet()
     return gv;
 }
 
+// Is a value one of those listed? There is no need for a set, so no limit on the values.
+llvm::Value* SetExprAST::Contains(llvm::Value* x, bool isUnsigned)
+{
+    llvm::Value* found = MakeBooleanConstant(false);
+    for (auto v : values)
+    {
+	llvm::Value* match;
+	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
+	{
+	    llvm::Value* low = r->Low();
+	    llvm::Value* high = r->High();
+	    if (isUnsigned)
+	    {
+		match = builder.CreateAnd(builder.CreateICmpUGE(x, low), builder.CreateICmpULE(x, high));
+	    }
+	    else
+	    {
+		match = builder.CreateAnd(builder.CreateICmpSGE(x, low), builder.CreateICmpSLE(x, high));
+	    }
+	}
+	else
+	{
+	    match = builder.CreateICmpEQ(x, v->CodeGen());
+	}
+	found = builder.CreateOr(found, match);
+    }
+    return found;
+}
+
 llvm::Value* SetExprAST::Address()
 {
     TRACE();
@@ -3722,17 +3758,24 @@ llvm::Value* SetExprAST::Address()
 
 	    // Adjust for range:
 	    Types::Range* range = type->GetRange();
-	    low = builder.CreateSExt(low, intTy, "sext.low");
-	    high = builder.CreateSExt(high, intTy, "sext.high");
+	    low = builder.CreateIntCast(low, intTy, !IsUnsigned(r->LowExpr()->Type()), "cast.low");
+	    high = builder.CreateIntCast(high, intTy, !IsUnsigned(r->HighExpr()->Type()), "cast.high");
 
 	    llvm::Value* rangeStart = MakeIntegerConstant(range->Start());
 	    low = builder.CreateSub(low, rangeStart);
 	    high = builder.CreateSub(high, rangeStart);
 
+	    // Values that can't be in the set are ignored, and the range may be empty.
+	    llvm::Value* zero = MakeIntegerConstant(0);
+	    llvm::Value* last = MakeIntegerConstant(range->Size() - 1);
+	    low = builder.CreateSelect(builder.CreateICmpSLT(low, zero), zero, low);
+	    high = builder.CreateSelect(builder.CreateICmpSGT(high, last), last, high);
+
 	    builder.CreateStore(low, loopVar);
 
 	    llvm::BasicBlock* loopBB = llvm::BasicBlock::Create(theContext, "loop", fn);
-	    builder.CreateBr(loopBB);
+	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
+	    builder.CreateCondBr(builder.CreateICmpSLE(low, high, "nonempty"), loopBB, afterBB);
 	    builder.SetInsertPoint(loopBB);
 
 	    llvm::Value* loop = builder.CreateLoad(intTy, loopVar, "loopVar");
@@ -3760,7 +3803,6 @@ llvm::Value* SetExprAST::Address()
 
 	    llvm::Value* endCond = builder.CreateICmpSLE(loop, high, "loopcond");
 
-	    llvm::BasicBlock* afterBB = llvm::BasicBlock::Create(theContext, "afterloop", fn);
 	    builder.CreateCondBr(endCond, loopBB, afterBB);
 
 	    builder.SetInsertPoint(afterBB);
@@ -3771,8 +3813,10 @@ llvm::Value* SetExprAST::Address()
 	    llvm::Value*  rangeStart = MakeIntegerConstant(range->Start());
 	    llvm::Value*  x = v->CodeGen();
 	    ICE_IF(!x, "Expect codegen to work!");
-	    x = builder.CreateZExt(x, intTy, "zext");
+	    x = builder.CreateIntCast(x, intTy, !IsUnsigned(v->Type()), "cast");
 	    x = builder.CreateSub(x, rangeStart);
+	    // A value that can't be in the set is ignored: no bit is set in the first word.
+	    llvm::Value* inRange = builder.CreateICmpULT(x, MakeIntegerConstant(range->Size()), "inrange");
 
 	    llvm::Value* mask = MakeIntegerConstant(Types::SetDecl::SetMask);
 	    llvm::Value* offset = builder.CreateAnd(x, mask);
@@ -3781,11 +3825,13 @@ llvm::Value* SetExprAST::Address()
 	    if (size != 1)
 	    {
 		index = builder.CreateLShr(x, MakeIntegerConstant(Types::SetDecl::SetPow2Bits));
+		index = builder.CreateSelect(inRange, index, MakeIntegerConstant(0));
 	    }
 	    else
 	    {
 		index = MakeIntegerConstant(0);
 	    }
+	    bit = builder.CreateSelect(inRange, bit, MakeIntegerConstant(0));
 	    llvm::Value* bitsetAddr = builder.CreateGEP(intTy, setV, index, "bitsetaddr");
 	    llvm::Value* bitset = builder.CreateLoad(intTy, bitsetAddr, "bitset");
 	    bitset = builder.CreateOr(bitset, bit);
@@ -3950,48 +3996,33 @@ static llvm::Value* ConvertSet(ExprAST* expr, Types::TypeDecl* type)
     Types::Range* rrange = rty->GetRange();
     Types::Range* lrange = lty->GetRange();
 
-    llvm::Value* w;
     llvm::Value* src = MakeAddressable(expr);
-    size_t       p = 0;
     llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-
-    for (auto i = lrange->Start(); i < lrange->End(); i += Types::SetDecl::SetBits)
+    int64_t      words = rty->SetWords();
+    auto         sourceWord = [&](int64_t i) -> llvm::Value*
     {
-	if (i >= (rrange->Start() & ~Types::SetDecl::SetMask) && i < rrange->End())
+	if (i < 0 || i >= words)
 	{
-	    if (i > rrange->Start())
-	    {
-		size_t       index = i - rrange->Start();
-		size_t       sp = index >> Types::SetDecl::SetPow2Bits;
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		if (size_t shift = (index & Types::SetDecl::SetMask))
-		{
-		    w = builder.CreateLShr(w, shift, "wsh");
-		    if (sp + 1 < rty->SetWords())
-		    {
-			llvm::Value* xp = builder.CreateGEP(intTy, src, MakeIntegerConstant(sp + 1),
-			                                    "srcip1");
-			llvm::Value* x = builder.CreateLoad(intTy, xp, "x");
-			x = builder.CreateShl(x, 32 - shift);
-			w = builder.CreateOr(w, x);
-		    }
-		}
-	    }
-	    else
-	    {
-		llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(0), "srci");
-		w = builder.CreateLoad(intTy, srci, "w");
-		w = builder.CreateShl(w, rrange->Start() - i, "wsh");
-	    }
+	    return MakeIntegerConstant(0);
 	}
-	else
+	llvm::Value* srci = builder.CreateGEP(intTy, src, MakeIntegerConstant(i), "srci");
+	return builder.CreateLoad(intTy, srci, "w");
+    };
+
+    for (int64_t p = 0; p < (int64_t)lty->SetWords(); p++)
+    {
+	// The bit number in the source of the first bit in this word, which may be before its start.
+	int64_t      index = (int64_t)lrange->Start() + p * Types::SetDecl::SetBits - rrange->Start();
+	int64_t      sp = index >> Types::SetDecl::SetPow2Bits;
+	llvm::Value* w = sourceWord(sp);
+	if (uint64_t shift = (index & Types::SetDecl::SetMask))
 	{
-	    w = MakeIntegerConstant(0);
+	    w = builder.CreateLShr(w, shift, "wsh");
+	    llvm::Value* x = builder.CreateShl(sourceWord(sp + 1), Types::SetDecl::SetBits - shift);
+	    w = builder.CreateOr(w, x);
 	}
 	llvm::Value* desti = builder.CreateGEP(intTy, dest, MakeIntegerConstant(p));
 	builder.CreateStore(w, desti);
-	p++;
     }
     return dest;
 }
@@ -4039,7 +4070,7 @@ llvm::Value* TypeCastAST::CodeGen()
     // Sets are compatible anyway...
     if (llvm::isa<Types::SetDecl>(current))
     {
-	return builder.CreateLoad(current->LlvmType(), Address(), "set");
+	return builder.CreateLoad(type->LlvmType(), Address(), "set");
     }
 #if !NDEBUG
     dump();
diff --git a/expr.h b/expr.h
index b60df36..1549df1 100644
--- a/expr.h
+++ b/expr.h
@@ -244,7 +244,16 @@ public:
     llvm::Value*    Address() override;
     llvm::Constant* MakeConstantSetArray();
     llvm::Value*    MakeConstantSet();
+    llvm::Value*    Contains(llvm::Value* x, bool isUnsigned);
     static bool     classof(const ExprAST* e) { return e->getKind() == EK_SetExpr; }
+    void            accept(ASTVisitor& v) override
+    {
+	for (auto i : values)
+	{
+	    i->accept(v);
+	}
+	v.visit(this);
+    }
 
 private:
     std::vector<ExprAST*> values;
@@ -444,7 +453,7 @@ public:
     RangeExprAST(const Location& w, ExprAST* l, ExprAST* h)
         : ExprAST(w, EK_RangeExpr, l->Type()), low(l), high(h)
     {
-	ICE_IF(*l->Type() != *h->Type(), "Expect same type here");
+	ICE_IF(*Types::BaseOrdinalType(l->Type()) != *Types::BaseOrdinalType(h->Type()), "Expect same type here");
     }
     void         DoDump() const override;
     llvm::Value* Low() { return low->CodeGen(); }
diff --git a/parser.cpp b/parser.cpp
index a595d2d..e36168c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -2975,6 +2975,15 @@ public:
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		ExprAST* vEnd = parser.ParseExpression();
+		if (!vEnd)
+		{
+		    return false;
+		}
+		if (*Types::BaseOrdinalType(v->Type()) != *Types::BaseOrdinalType(vEnd->Type()))
+		{
+		    parser.Error("Range should be same type at both ends");
+		    return false;
+		}
 		v = new RangeExprAST(parser.CurrentToken().Loc(), v, vEnd);
 	    }
 	    values.push_back(v);
@@ -3000,10 +3009,10 @@ ExprAST* Parser::ParseSetExpr(Types::TypeDecl* setType)
 	Types::TypeDecl* type = 0;
 	if (!ccs.Values().empty())
 	{
-	    type = ccs.Values()[0]->Type();
+	    type = Types::BaseOrdinalType(ccs.Values()[0]->Type());
 	    for (auto i = ccs.Values().begin() + 1, e = ccs.Values().end(); i != e; i++)
 	    {
-		if ((*i)->Type() != type)
+		if (*Types::BaseOrdinalType((*i)->Type()) != *type)
 		{
 		    return Error("Not all elements of set are same type");
 		}
diff --git a/semantics.cpp b/semantics.cpp
index e46a7dd..2107441 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -11,7 +11,12 @@ public:
     TypeCheckVisitor(Source& src, Semantics* s) : sema(s), source(src){};
     void visit(ExprAST* expr) override;
 
+    static void ResolveSet(ExprAST* e, ExprAST* other = 0);
+
 private:
+    static bool             SetExtent(ExprAST* e, Types::TypeDecl*& base, Types::Range*& range);
+    static void             ResolveSet(ExprAST* e, Types::RangeDecl* r);
+    static Types::RangeDecl* ExtendedRange(Types::SetDecl* sd, ExprAST* e);
     Types::TypeDecl* BinarySetUpdate(BinaryExprAST* b);
     Types::TypeDecl* BinaryExprType(BinaryExprAST* b);
     template<typename T>
@@ -61,20 +66,139 @@ public:
 class SetRangeFixup : public SemaFixup
 {
 public:
-    SetRangeFixup(SetExprAST* s, Types::RangeDecl* r) : expr(s), guessRange(r) {}
+    SetRangeFixup(ExprAST* s) : expr(s) {}
     void DoIt() override;
 
 private:
-    SetExprAST*       expr;
-    Types::RangeDecl* guessRange;
+    ExprAST* expr;
 };
 
+static Types::Range* Join(Types::Range* a, int64_t low, int64_t high)
+{
+    return a ? new Types::Range(std::min<int64_t>(a->Start(), low), std::max<int64_t>(a->End(), high))
+             : new Types::Range(low, high);
+}
+
+// Find the base type and the range of values in the set constructors of an expression, as far as they are
+// known. Returns false if there are values that can't be known.
+bool TypeCheckVisitor::SetExtent(ExprAST* e, Types::TypeDecl*& base, Types::Range*& range)
+{
+    if (auto b = llvm::dyn_cast<BinaryExprAST>(e))
+    {
+	bool l = SetExtent(b->lhs, base, range);
+	return SetExtent(b->rhs, base, range) && l;
+    }
+    auto s = llvm::dyn_cast<SetExprAST>(e);
+    if (!s)
+    {
+	return true;
+    }
+    bool known = true;
+    for (auto v : s->values)
+    {
+	base = Types::BaseOrdinalType(v->Type());
+
+	std::vector<ExprAST*> ends{ v };
+	if (auto r = llvm::dyn_cast<RangeExprAST>(v))
+	{
+	    ends = { r->low, r->high };
+	}
+	for (auto x : ends)
+	{
+	    auto u = llvm::dyn_cast<UnaryExprAST>(x);
+	    bool neg = u && u->oper.GetToken() == Token::Minus;
+	    if (auto c = llvm::dyn_cast<IntegerExprAST>(neg ? u->rhs : x))
+	    {
+		int64_t value = neg ? -c->Int() : c->Int();
+		range = Join(range, value, value);
+	    }
+	    else if (llvm::isa<Types::RangeDecl>(x->Type()))
+	    {
+		range = Join(range, x->Type()->GetRange()->Start(), x->Type()->GetRange()->End());
+	    }
+	    else
+	    {
+		known = false;
+	    }
+	}
+    }
+    return known;
+}
+
+// Give the set constructors in an expression that don't have a range yet this range.
+void TypeCheckVisitor::ResolveSet(ExprAST* e, Types::RangeDecl* r)
+{
+    if (auto b = llvm::dyn_cast<BinaryExprAST>(e))
+    {
+	if (auto sd = llvm::dyn_cast<Types::SetDecl>(b->lhs->Type()))
+	{
+	    if (!sd->GetRange())
+	    {
+		ResolveSet(b->lhs, r);
+	    }
+	}
+	if (auto sd = llvm::dyn_cast<Types::SetDecl>(b->rhs->Type()))
+	{
+	    if (!sd->GetRange())
+	    {
+		ResolveSet(b->rhs, r);
+	    }
+	}
+    }
+    auto sd = llvm::dyn_cast<Types::SetDecl>(e->Type());
+    if (!sd->SubType())
+    {
+	sd->UpdateSubtype(r->SubType());
+    }
+    if (!sd->GetRange())
+    {
+	sd->UpdateRange(r);
+    }
+}
+
+// Make a range for set constructors when no other operand tells the range.
+void TypeCheckVisitor::ResolveSet(ExprAST* e, ExprAST* other)
+{
+    Types::TypeDecl* base = 0;
+    Types::Range*    range = 0;
+    bool             known = SetExtent(e, base, range);
+    if (other)
+    {
+	known = SetExtent(other, base, range) && known;
+    }
+    if (!base)
+    {
+	base = llvm::dyn_cast<Types::SetDecl>(e->Type())->SubType();
+    }
+    if (!base && other)
+    {
+	base = llvm::dyn_cast<Types::SetDecl>(other->Type())->SubType();
+    }
+    base = base ? Types::BaseOrdinalType(base) : Types::Get<Types::IntegerDecl>();
+    Types::Range* full = base->GetRange();
+    if (full && full->Size() <= Types::SetDecl::MaxSetSize)
+    {
+	range = full;
+    }
+    else if (!known || !range || range->Size() > Types::SetDecl::MaxSetSize)
+    {
+	int64_t last = Types::SetDecl::MaxSetSize - 1;
+	int64_t low = range ? std::min<int64_t>(range->Start(), 0) : 0;
+	range = new Types::Range(low, low + last);
+    }
+    auto r = new Types::RangeDecl(range, base);
+    ResolveSet(e, r);
+    if (other)
+    {
+	ResolveSet(other, r);
+    }
+}
+
 void SetRangeFixup::DoIt()
 {
     if (!expr->Type()->GetRange())
     {
-	auto sd = llvm::dyn_cast<Types::SetDecl>(expr->Type());
-	sd->UpdateRange(guessRange);
+	TypeCheckVisitor::ResolveSet(expr);
     }
 }
 
@@ -110,6 +234,19 @@ static Types::RangeDecl* GetRangeDecl(Types::TypeDecl* ty)
     return new Types::RangeDecl(r, base);
 }
 
+// The range of a set, extended to hold the known values of a set constructor.
+Types::RangeDecl* TypeCheckVisitor::ExtendedRange(Types::SetDecl* sd, ExprAST* e)
+{
+    Types::TypeDecl* base = 0;
+    Types::Range*    range = sd->GetRange();
+    SetExtent(e, base, range);
+    if (range->Size() > Types::SetDecl::MaxSetSize)
+    {
+	range = sd->GetRange();
+    }
+    return new Types::RangeDecl(range, Types::BaseOrdinalType(sd->SubType()));
+}
+
 void TypeCheckVisitor::Error(const ExprAST* e, const std::string& msg) const
 {
     std::cerr << e->Loc() << " Error: " << msg << std::endl;
@@ -135,64 +272,65 @@ Types::TypeDecl* TypeCheckVisitor::BinarySetUpdate(BinaryExprAST* b)
     auto lty = llvm::cast<Types::SetDecl>(b->lhs->Type());
     auto rty = llvm::cast<Types::SetDecl>(b->rhs->Type());
     ICE_IF(!lty || !rty, "Expect set declarations on both side!");
-    if (auto s = llvm::dyn_cast<SetExprAST>(b->lhs))
+    // The empty set is a set of whatever the other side is.
+    if (!lty->SubType() && rty->SubType())
     {
-	if (s->values.empty() && rty->SubType())
-	{
-	    lty->UpdateSubtype(rty->SubType());
-	}
+	lty->UpdateSubtype(rty->SubType());
     }
-    if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
+    if (!rty->SubType() && lty->SubType())
     {
-	if ((s->values.empty() || !rty->SubType()) && lty->SubType())
-	{
-	    rty->UpdateSubtype(lty->SubType());
-	}
+	rty->UpdateSubtype(lty->SubType());
+    }
+    if (rty->SubType() &&
+        *Types::BaseOrdinalType(lty->SubType()) != *Types::BaseOrdinalType(rty->SubType()))
+    {
+	Error(b, "Set type content isn't the same!");
+	return rty;
     }
     if (!lty->GetRange() && !rty->GetRange())
     {
-	Types::RangeDecl* r = GetRangeDecl(Types::Get<Types::IntegerDecl>());
-
-	if (!rty->SubType() && !lty->SubType())
-	{
-	    rty->UpdateSubtype(r->SubType());
-	    lty->UpdateSubtype(r->SubType());
-	}
-	else
+	if (!b->oper.IsCompare())
 	{
-	    r = GetRangeDecl(rty->SubType());
+	    // Leave it to the use of this expression to decide.
+	    sema->AddFixup(new SetRangeFixup(b));
+	    return rty;
 	}
-
-	lty->UpdateRange(r);
-	rty->UpdateRange(r);
+	ResolveSet(b->lhs, b->rhs);
     }
 
-    if (!lty->GetRange() && rty->GetRange())
+    if (!lty->GetRange())
     {
-	llvm::dyn_cast<Types::SetDecl>(lty)->UpdateRange(GetRangeDecl(rty));
+	ResolveSet(b->lhs, ExtendedRange(rty, b->lhs));
     }
-    if (!rty->GetRange() && lty->GetRange())
+    if (!rty->GetRange())
     {
-	llvm::dyn_cast<Types::SetDecl>(rty)->UpdateRange(GetRangeDecl(lty));
+	ResolveSet(b->rhs, ExtendedRange(lty, b->rhs));
     }
 
     Types::Range* lr = lty->GetRange();
     Types::Range* rr = rty->GetRange();
 
-    if (*lty->SubType() != *rty->SubType())
+    if (lr->Size() > Types::SetDecl::MaxSetSize || rr->Size() > Types::SetDecl::MaxSetSize)
     {
-	Error(b, "Set type content isn't the same!");
+	Error(b, "Set too large");
     }
     else if (rr && lr && *rr != *lr)
     {
 	Types::Range* range = new Types::Range(std::min(lr->Start(), rr->Start()),
 	                                       std::max(lr->End(), rr->End()));
+	if (range->Size() > Types::SetDecl::MaxSetSize)
+	{
+	    Error(b, "Set too large");
+	    return rty;
+	}
 
-	Types::RangeDecl* r = new Types::RangeDecl(range, rty->SubType());
-	Types::SetDecl*   set = new Types::SetDecl(r, rty->SubType());
+	Types::TypeDecl*  base = Types::BaseOrdinalType(rty->SubType());
+	Types::RangeDecl* r = new Types::RangeDecl(range, base);
+	Types::SetDecl*   set = new Types::SetDecl(r, base);
 
 	b->lhs = Recast(b->lhs, set);
 	b->rhs = Recast(b->rhs, set);
+	return set;
     }
     return rty;
 }
@@ -213,24 +351,20 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 	    Error(b, "Left hand of 'in' expression should be integral type.");
 	}
 
-	// Empty set always has the "right" type
-	if (auto s = llvm::dyn_cast<SetExprAST>(b->rhs))
+	if (auto sd = llvm::dyn_cast<Types::SetDecl>(rty))
 	{
-	    if (s->values.empty())
+	    // Empty set always has the "right" type
+	    if (!sd->SubType())
 	    {
-		llvm::dyn_cast<Types::SetDecl>(rty)->UpdateSubtype(lty);
+		sd->UpdateSubtype(Types::BaseOrdinalType(lty));
 	    }
-	}
-	if (auto sd = llvm::dyn_cast<Types::SetDecl>(rty))
-	{
-	    ICE_IF(!sd->SubType(), "Should have a subtype");
-	    if (*lty != *sd->SubType())
+	    if (*Types::BaseOrdinalType(lty) != *Types::BaseOrdinalType(sd->SubType()))
 	    {
 		Error(b, "Left hand type does not match constituent parts of set");
 	    }
 	    if (!sd->GetRange())
 	    {
-		sd->UpdateRange(GetRangeDecl(lty));
+		ResolveSet(b->rhs);
 	    }
 	}
 	else
@@ -529,11 +663,7 @@ void TypeCheckVisitor::Check<AssignExprAST>(AssignExprAST* a)
 
 	if (!rsty->GetRange())
 	{
-	    rsty->UpdateRange(GetRangeDecl(lsty));
-	}
-	if (!rsty->SubType())
-	{
-	    rsty->UpdateSubtype(lsty->SubType());
+	    ResolveSet(a->rhs, GetRangeDecl(lsty));
 	}
     }
 
@@ -598,7 +728,7 @@ void TypeCheckVisitor::Check<RangeExprAST>(RangeExprAST* r)
 {
     TRACE();
 
-    if (*r->low->Type() != *r->high->Type())
+    if (*Types::BaseOrdinalType(r->low->Type()) != *Types::BaseOrdinalType(r->high->Type()))
     {
 	Error(r, "Range should be same type at both ends");
     }
@@ -609,15 +739,9 @@ void TypeCheckVisitor::Check<SetExprAST>(SetExprAST* s)
 {
     TRACE();
 
-    Types::Range* r;
-    if (!(r = s->Type()->GetRange()))
+    if (!s->Type()->GetRange())
     {
-	Types::RangeDecl* rd = GetRangeDecl(s->Type());
-	auto              sd = llvm::dyn_cast<Types::SetDecl>(s->Type());
-	if (sd->SubType())
-	{
-	    sema->AddFixup(new SetRangeFixup(s, rd));
-	}
+	sema->AddFixup(new SetRangeFixup(s));
     }
 }
 
@@ -716,6 +840,13 @@ void TypeCheckVisitor::Check<CallExprAST>(CallExprAST* c)
     {
 	bool bad = true;
 
+	auto psty = llvm::dyn_cast<Types::SetDecl>(parg[idx].Type());
+	auto asty = llvm::dyn_cast<Types::SetDecl>(a->Type());
+	if (psty && asty && psty->GetRange() && !asty->GetRange())
+	{
+	    ResolveSet(a, GetRangeDecl(psty));
+	}
+
 	if (const Types::TypeDecl* ty = parg[idx].Type()->AssignableType(a->Type()))
 	{
 	    if (parg[idx].IsRef() && !llvm::isa<AddressableAST, ClosureAST>(a))
@@ -801,6 +932,14 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     {
 	if (auto setDecl = llvm::dyn_cast<Types::SetDecl>(f->start->Type()))
 	{
+	    if (!setDecl->SubType())
+	    {
+		setDecl->UpdateSubtype(Types::BaseOrdinalType(vty));
+	    }
+	    if (!setDecl->GetRange())
+	    {
+		ResolveSet(f->start);
+	    }
 	    if (!setDecl->SubType()->CompatibleType(vty))
 	    {
 		Error(f->variable, "Expected variable to be compatible with set");
@@ -1083,10 +1222,12 @@ void Semantics::RunFixups()
 {
     TRACE();
 
-    for (auto f : fixups)
+    // Outer expressions come after their parts, and decide for these.
+    for (auto f = fixups.rbegin(); f != fixups.rend(); f++)
     {
-	f->DoIt();
+	(*f)->DoIt();
     }
+    fixups.clear();
 }
 
 template<typename T>
diff --git a/types.cpp b/types.cpp
index 022f82f..555aada 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1282,6 +1282,15 @@ namespace Types
 	}
     }
 
+    TypeDecl* BaseOrdinalType(TypeDecl* ty)
+    {
+	if (auto rd = llvm::dyn_cast_or_null<RangeBaseDecl>(ty))
+	{
+	    return rd->SubType();
+	}
+	return ty;
+    }
+
     void SetDecl::UpdateSubtype(TypeDecl* ty)
     {
 	ICE_IF(baseType, "Expected to not have a subtype yet...");
@@ -1301,7 +1310,7 @@ namespace Types
     {
 	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (*baseType == *sty->baseType)
+	    if (*BaseOrdinalType(baseType) == *BaseOrdinalType(sty->baseType))
 	    {
 		return this;
 	    }
@@ -1309,14 +1318,15 @@ namespace Types
 	return 0;
     }
 
+    // Sets are the same when they have the same layout, whichever way the base type is named.
     bool SetDecl::SameAs(const TypeDecl* ty) const
     {
-	if (CompoundDecl::SameAs(ty))
+	if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
 	{
-	    if (const auto sty = llvm::dyn_cast<SetDecl>(ty))
-	    {
-		return sty->range && *range == *sty->range;
-	    }
+	    Range* r = GetRange();
+	    Range* sr = sty->GetRange();
+	    return *BaseOrdinalType(baseType) == *BaseOrdinalType(sty->baseType) &&
+	           (range == sty->range || (r && sr && *r == *sr));
 	}
 	return false;
     }
diff --git a/types.h b/types.h
index 7c4bb6c..e7d4d8b 100644
--- a/types.h
+++ b/types.h
@@ -43,6 +43,8 @@ namespace Types
     bool IsNumeric(const TypeDecl* t);
     bool IsCharArray(const TypeDecl* t);
     bool IsStringLike(const TypeDecl* t);
+    // The type that a (sub)range is a range of, other types are returned as they are.
+    TypeDecl* BaseOrdinalType(TypeDecl* ty);
     bool IsIntegral(const TypeDecl* t);
     bool IsUnsigned(const TypeDecl* t);
     bool IsCompound(const TypeDecl* t);
-- 
2.43.0


From f55e899962fc8a62ab708639794ed5d5dee503d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 13/53] fix: copying a variant record copies all of any variant

---
 types.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/types.cpp b/types.cpp
index 555aada..e95023d 100644
--- a/types.cpp
+++ b/types.cpp
@@ -627,31 +627,14 @@ namespace Types
 		    return opaqueType;
 		}
 	    }
-	    size_t sz = dl.getTypeAllocSize(ty);
-	    size_t al = dl.getPrefTypeAlign(ty).value();
-	    if (sz > maxSize)
-	    {
-		maxSize = sz;
-		maxSizeElt = elt;
-	    }
-	    if (al > maxAlign || (al == maxAlign && sz > maxAlignSize))
-	    {
-		maxAlign = al;
-		maxAlignSize = sz;
-		maxAlignElt = elt;
-	    }
-	    elt++;
+	    maxSize = std::max<size_t>(maxSize, dl.getTypeAllocSize(ty));
+	    maxAlign = std::max<size_t>(maxAlign, dl.getABITypeAlign(ty).value());
 	}
 
-	llvm::Type*              ty = fields[maxAlignElt]->LlvmType();
-	std::vector<llvm::Type*> fv = { ty };
-	if (maxAlignElt != maxSizeElt)
-	{
-	    size_t      nelems = maxSize - maxAlignSize;
-	    llvm::Type* ty = llvm::ArrayType::get(Get<CharDecl>()->LlvmType(), nelems);
-	    fv.push_back(ty);
-	}
-	return llvm::StructType::create(fv, name);
+	// Made from integers without any gaps, so that copying it copies any of the variants.
+	llvm::Type* word = llvm::IntegerType::get(theContext, maxAlign * 8);
+	llvm::Type* words = llvm::ArrayType::get(word, (maxSize + maxAlign - 1) / maxAlign);
+	return llvm::StructType::create({ words }, name);
     }
 
     llvm::DIType* VariantDecl::GetDIType(llvm::DIBuilder* builder) const
-- 
2.43.0


From 649d820cc2637b99cee03372b24dcfa97af00451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 14/53] fix: temporary strings have space for their length and
 characters

---
 expr.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 66b9d1d..db907d1 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -296,9 +296,7 @@ static llvm::Value* TempStringFromStringExpr(llvm::Value* dest, StringExprAST* r
 {
     auto func = [](llvm::Value* v, llvm::Value* chars, size_t size)
     {
-	llvm::Align destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
-	llvm::Align srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, v, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, llvm::Align(1), v, llvm::Align(1), size);
     };
 
     return FillTempString(dest, rhs->CodeGen(), rhs->Str().size(), func);
@@ -320,9 +318,7 @@ static llvm::Value* TempStringFromCharArray(llvm::Value* dest, AddressableAST* r
     {
 	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 	llvm::Value* src = builder.CreateGEP(charTy, v, { MakeIntegerConstant(0) }, "src");
-	llvm::Align  destAlign{ std::max(AlignOfType(chars->getType()), MIN_ALIGN) };
-	llvm::Align  srcAlign{ std::max(AlignOfType(v->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(chars, destAlign, src, srcAlign, size + 1);
+	return builder.CreateMemCpy(chars, llvm::Align(1), src, llvm::Align(1), size);
     };
 
     return FillTempString(dest, rhs->Address(), size, func);
@@ -775,18 +771,29 @@ llvm::Value* BinaryExprAST::CallSetFunc(const std::string& name, Types::TypeDecl
     return builder.CreateCall(f, { lV, rV, setWords }, "calltmp");
 }
 
+// The temporary string must have space for the length as well as the characters.
+static llvm::Value* CreateTempString(Types::TypeDecl* ty, size_t size)
+{
+    auto sd = llvm::dyn_cast<Types::StringDecl>(ty);
+    if (!sd || sd->Capacity() < (int)size)
+    {
+	ty = new Types::StringDecl(std::max<size_t>(size, 1));
+    }
+    return CreateTempAlloca(ty);
+}
+
 llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 {
     TRACE();
     if (llvm::isa<Types::CharDecl>(e->Type()))
     {
-	llvm::Value* v = CreateTempAlloca(Types::Get<Types::StringDecl>(1));
+	llvm::Value* v = CreateTempAlloca(new Types::StringDecl(1));
 	TempStringFromChar(v, e);
 	return v;
     }
     if (auto se = llvm::dyn_cast<StringExprAST>(e))
     {
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(ty, se->Str().size());
 	TempStringFromStringExpr(v, se);
 	return v;
     }
@@ -804,7 +811,7 @@ llvm::Value* MakeStringFromExpr(ExprAST* e, Types::TypeDecl* ty)
 
 	ICE_IF(r.size() != 1, "Expect 1D array here");
 
-	llvm::Value* v = CreateTempAlloca(ty);
+	llvm::Value* v = CreateTempString(ty, r[0]->RangeSize());
 	TempStringFromCharArray(v, ea, r[0]->RangeSize());
 	return v;
     }
-- 
2.43.0


From 6fff5a9298c811e6621e21f99fbcfd8dfc753118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 15/53] fix: case with else containing labels, large ranges of
 any type, overlapping labels

---
 expr.cpp      | 15 ++++++++++-----
 expr.h        |  6 +++---
 parser.cpp    | 28 +++++++++++++++++++++-------
 semantics.cpp |  5 +++--
 types.cpp     |  8 ++------
 5 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index db907d1..4903ccb 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3491,7 +3491,7 @@ void CaseExprAST::accept(ASTVisitor& v)
     v.visit(this);
 }
 
-static uint64_t Distance(std::pair<int, int> p)
+static uint64_t Distance(std::pair<int64_t, int64_t> p)
 {
     ICE_IF(p.first > p.second, "Expect ordered pair");
     if (p.first > 0)
@@ -3543,10 +3543,15 @@ llvm::Value* CaseExprAST::CodeGen()
 	    {
 		llvm::BasicBlock* next = llvm::BasicBlock::Create(theContext, "next", theFunction);
 		llvm::BasicBlock* maybe = llvm::BasicBlock::Create(theContext, "maybe", theFunction);
-		llvm::Value*      lt = builder.CreateICmpSLT(v, MakeIntegerConstant(val.first), "lt");
+		bool              isUnsigned = IsUnsigned(expr->Type());
+		llvm::Value*      low = llvm::ConstantInt::get(ty, val.first, true);
+		llvm::Value*      high = llvm::ConstantInt::get(ty, val.second, true);
+		llvm::Value*      lt = isUnsigned ? builder.CreateICmpULT(v, low, "lt")
+		                                  : builder.CreateICmpSLT(v, low, "lt");
 		builder.CreateCondBr(lt, next, maybe);
 		builder.SetInsertPoint(maybe);
-		llvm::Value* gt = builder.CreateICmpSGT(v, MakeIntegerConstant(val.second), "gt");
+		llvm::Value* gt = isUnsigned ? builder.CreateICmpUGT(v, high, "gt")
+		                             : builder.CreateICmpSGT(v, high, "gt");
 		builder.CreateCondBr(gt, next, ll.second);
 		builder.SetInsertPoint(next);
 	    }
@@ -3561,10 +3566,10 @@ llvm::Value* CaseExprAST::CodeGen()
 	{
 	    if (Distance(val) <= MaxRangeInSwitch)
 	    {
-		for (int i = val.first; i <= val.second; i++)
+		for (int64_t i = val.first; i <= val.second; i++)
 		{
 		    auto intTy = llvm::dyn_cast<llvm::IntegerType>(ty);
-		    sw->addCase(llvm::ConstantInt::get(intTy, i), ll.second);
+		    sw->addCase(llvm::ConstantInt::get(intTy, i, true), ll.second);
 		}
 	    }
 	}
diff --git a/expr.h b/expr.h
index 1549df1..0607e34 100644
--- a/expr.h
+++ b/expr.h
@@ -827,7 +827,7 @@ class LabelExprAST : public ExprAST
     friend class TypeCheckVisitor;
 
 public:
-    LabelExprAST(const Location& w, const std::vector<std::pair<int, int>>& lab, ExprAST* st)
+    LabelExprAST(const Location& w, const std::vector<std::pair<int64_t, int64_t>>& lab, ExprAST* st)
         : ExprAST(w, EK_LabelExpr), labelValues(lab), stmt(st)
     {
     }
@@ -836,10 +836,10 @@ public:
     llvm::Value*                            CodeGen(llvm::BasicBlock* caseBB, llvm::BasicBlock* afterBB);
     static bool                             classof(const ExprAST* e) { return e->getKind() == EK_LabelExpr; }
     void                                    accept(ASTVisitor& v) override;
-    const std::vector<std::pair<int, int>>& LabelValues() { return labelValues; }
+    const std::vector<std::pair<int64_t, int64_t>>& LabelValues() { return labelValues; }
 
 private:
-    std::vector<std::pair<int, int>> labelValues;
+    std::vector<std::pair<int64_t, int64_t>> labelValues;
     ExprAST*                         stmt;
 };
 
diff --git a/parser.cpp b/parser.cpp
index e36168c..e6d78e1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3935,7 +3935,7 @@ ExprAST* Parser::ParseCaseExpr()
 	return 0;
     }
     std::vector<LabelExprAST*>       labels;
-    std::vector<std::pair<int, int>> ranges;
+    std::vector<std::pair<int64_t, int64_t>> ranges;
     ExprAST*                         otherwise{ nullptr };
     Types::TypeDecl*                 type{ nullptr };
 
@@ -3952,10 +3952,8 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		return Error("Can't have multiple case labels with 'otherwise' or 'else' case label");
 	    }
-	    const Location loc = CurrentToken().Loc();
 	    otherwise = ParseStatement();
-	    labels.push_back(new LabelExprAST(loc, {}, otherwise));
-	    if (!ExpectSemicolonOrEnd())
+	    if (!otherwise || !ExpectSemicolonOrEnd())
 	    {
 		return 0;
 	    }
@@ -3963,7 +3961,15 @@ ExprAST* Parser::ParseCaseExpr()
 	else
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::Colon, Token::DotDot });
-	    int                         value = Constants::ToInt(cd);
+	    if (!cd)
+	    {
+		return 0;
+	    }
+	    if (!Types::IsIntegral(cd->Type()))
+	    {
+		return Error("Expected case label to be of ordinal type");
+	    }
+	    int64_t value = Constants::ToInt(cd);
 	    if (type)
 	    {
 		if (type != cd->Type())
@@ -3975,16 +3981,20 @@ ExprAST* Parser::ParseCaseExpr()
 	    {
 		type = cd->Type();
 	    }
-	    int end = value;
+	    int64_t end = value;
 	    if (AcceptToken(Token::DotDot))
 	    {
 		cd = ParseConstExpr({ Token::Comma, Token::Colon });
+		if (!cd)
+		{
+		    return 0;
+		}
 		if (type != cd->Type())
 		{
 		    return Error("Expected case labels to have same type");
 		}
 		end = Constants::ToInt(cd);
-		if (end <= value)
+		if (end < value)
 		{
 		    return Error("Expected case label range to be low..high");
 		}
@@ -4003,6 +4013,10 @@ ExprAST* Parser::ParseCaseExpr()
 	    NextToken();
 	    const Location locColon = CurrentToken().Loc();
 	    ExprAST*       s = ParseStatement();
+	    if (!s)
+	    {
+		return 0;
+	    }
 	    labels.push_back(new LabelExprAST(locColon, ranges, s));
 	    ranges.clear();
 	    if (!ExpectSemicolonOrEnd())
diff --git a/semantics.cpp b/semantics.cpp
index 2107441..ea16b9d 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1127,12 +1127,13 @@ void TypeCheckVisitor::Check<CaseExprAST>(CaseExprAST* c)
 	Error(c, "Case selection must be integral type");
     }
 
-    std::vector<std::pair<int, int>> vals;
+    std::vector<std::pair<int64_t, int64_t>> vals;
     for (auto l : c->labels)
     {
 	for (auto i : l->labelValues)
 	{
-	    if (std::find(vals.begin(), vals.end(), i) != vals.end())
+	    auto overlaps = [&](auto v) { return v.first <= i.second && i.first <= v.second; };
+	    if (std::any_of(vals.begin(), vals.end(), overlaps))
 	    {
 		Error(c, "Duplicate case label " + std::to_string(i.first));
 	    }
diff --git a/types.cpp b/types.cpp
index e95023d..df04746 100644
--- a/types.cpp
+++ b/types.cpp
@@ -607,12 +607,8 @@ namespace Types
     llvm::Type* VariantDecl::GetLlvmType() const
     {
 	const llvm::DataLayout& dl = theModule->getDataLayout();
-	size_t                 maxSize = 0;
-	size_t                 maxSizeElt = 0;
-	size_t                 maxAlign = 0;
-	size_t                 maxAlignElt = 0;
-	size_t                 maxAlignSize = 0;
-	size_t                 elt = 0;
+	size_t                  maxSize = 0;
+	size_t                  maxAlign = 1;
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
-- 
2.43.0


From e3ba835a423c697d81cfa2d246813cc8eb5d25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 16/53] fix: capturing a procedural parameter in a nested
 procedure crashed the compiler

---
 types.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/types.cpp b/types.cpp
index df04746..2895931 100644
--- a/types.cpp
+++ b/types.cpp
@@ -1450,7 +1450,6 @@ namespace Types
 	    return t->lType;
 
 	case TypeDecl::TK_String:
-	case TypeDecl::TK_FuncPtr:
 	case TypeDecl::TK_File:
 	case TypeDecl::TK_Text:
 	case TypeDecl::TK_Set:
-- 
2.43.0


From b136b3a7581057ef9393f7af485299ca761a43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 17/53] fix: strings of another size, and string expressions,
 were passed wrongly to value parameters

---
 expr.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 4903ccb..c163d89 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1607,7 +1607,17 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 		{
 		    if (IsCompound(i->Type()))
 		    {
-			if (vi)
+			auto sd = llvm::dyn_cast<Types::StringDecl>(vdef[index].Type());
+			if (sd && llvm::isa<Types::StringDecl>(i->Type()) && (!vi || *sd != *i->Type()))
+			{
+			    // The size of the string, or expression, may be different.
+			    v = CreateTempAlloca(sd);
+			    llvm::Value*         s = MakeStringFromExpr(i, i->Type());
+			    llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+				                                 { v->getType(), s->getType() }, "__StrAssign");
+			    builder.CreateCall(f, { v, s });
+			}
+			else if (vi)
 			{
 			    v = LoadOrMemcpy(vi->Address(), vi->Type());
 			}
-- 
2.43.0


From 97ee3e396754ad105974f81ed0cc7157ff9440d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 18/53] fix: nested procedures capture the variables of all
 enclosing procedures they reach, under unique names

---
 callgraph.cpp | 119 ++++++++++++++++++++++++++------------------------
 expr.h        |   3 ++
 parser.cpp    |  51 +++++++++++++++++-----
 types.h       |   5 +++
 4 files changed, 110 insertions(+), 68 deletions(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index b3dae00..4f5aeb3 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -116,7 +116,7 @@ void UpdateCallVisitor::visit(ExprAST* expr)
 
 using VarMap = std::map<std::string, VarDef>;
 using VarSet = std::set<std::string>;
-using CallSet = std::set<const FunctionAST*>;
+using FuncSet = std::set<const FunctionAST*>;
 
 class CallGraphClosureCollector : public CallGraphVisitor
 {
@@ -127,9 +127,10 @@ public:
     void AddVarDecls(const std::vector<VarDef>& vars, FunctionAST* f);
     void CollectUseData(FunctionAST* f);
 
+    std::vector<FunctionAST*>             functions;
     std::map<const FunctionAST*, VarSet>  useMap;
     std::map<const FunctionAST*, VarMap>  declMap;
-    std::map<const FunctionAST*, CallSet> callMap;
+    std::map<const FunctionAST*, FuncSet> refMap;
 };
 
 class CollectUses : public ASTVisitor
@@ -153,18 +154,16 @@ public:
 	    ICE_IF(v->Name().empty(), "Expect a name");
 	    uses.insert(v->Name());
 	}
-	if (auto c = llvm::dyn_cast<CallExprAST>(a))
+	// A function that is called or passed as an argument.
+	if (auto fe = llvm::dyn_cast<FunctionExprAST>(a))
 	{
-	    if (auto fe = llvm::dyn_cast<FunctionExprAST>(c->Callee()))
+	    if (auto fn = fe->Proto()->Function())
 	    {
-		if (auto fn = fe->Proto()->Function())
-		{
-		    calls.insert(fn);
-		}
+		refs.insert(fn);
 	    }
 	}
     }
-    CallSet calls;
+    FuncSet refs;
     VarSet  uses;
 };
 
@@ -174,37 +173,31 @@ void CallGraphClosureCollector::AddVarDecls(const std::vector<VarDef>& vars, Fun
     for (auto d : vars)
     {
 	ICE_IF(d.Name().empty(), "Variables should have a name");
-	dm.insert(std::pair<std::string, VarDef>(d.Name(), d));
+	dm.insert({ d.Name(), d });
+	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(d.Type()))
+	{
+	    Types::DynRangeDecl* dr = dty->Range();
+	    dm.insert({ dr->LowName(), VarDef(dr->LowName(), dr->SubType()) });
+	    dm.insert({ dr->HighName(), VarDef(dr->HighName(), dr->SubType()) });
+	}
     }
 }
 
 void CallGraphClosureCollector::CollectUseData(FunctionAST* f)
 {
     CollectUses collector;
-    f->accept(collector);
+    if (f->Body())
+    {
+	f->Body()->accept(collector);
+    }
     if (!llvm::isa<Types::VoidDecl>(f->Proto()->Type()))
     {
-	AddVarDecls({ VarDef(f->Proto()->Name(), f->Proto()->Type()) }, f);
+	AddVarDecls({ VarDef(f->Proto()->ResName(), f->Proto()->Type()) }, f);
     }
     AddVarDecls(f->Proto()->Args(), f);
+    functions.push_back(f);
     useMap[f] = collector.uses;
-    callMap[f] = collector.calls;
-}
-
-void RemoveFromUses(VarSet& uses, const VarMap& decls)
-{
-    for (auto d : decls)
-    {
-	uses.erase(d.second.Name());
-    }
-}
-
-void AddToUses(VarSet& uses, VarSet& more)
-{
-    for (auto v : more)
-    {
-	uses.insert(v);
-    }
+    refMap[f] = collector.refs;
 }
 
 void BuildClosures(ExprAST* ast)
@@ -213,45 +206,55 @@ void BuildClosures(ExprAST* ast)
     CallGraphClosureCollector v;
     CallGraph(ast, v);
 
-    for (auto usage : v.useMap)
+    // The variables of outer functions that each function uses itself.
+    std::map<const FunctionAST*, std::map<std::string, const FunctionAST*>> needed;
+    for (auto func : v.functions)
     {
-	VarSet       uses = usage.second;
-	FunctionAST* func = const_cast<FunctionAST*>(usage.first);
-
-	// Remove local declarations.
-	RemoveFromUses(uses, v.declMap[func]);
-
-	// Add uses from subfunctions.
-	for (auto sub : func->SubFunctions())
+	for (auto use : v.useMap[func])
 	{
-	    VarSet use = v.useMap[sub];
-	    RemoveFromUses(use, v.declMap[sub]);
-	    AddToUses(uses, use);
-	}
-
-	for (auto call : v.callMap[func])
-	{
-	    VarSet callerUse = v.useMap[call];
-	    RemoveFromUses(callerUse, v.declMap[call]);
-	    AddToUses(uses, callerUse);
+	    for (const FunctionAST* f = func; f; f = f->Parent())
+	    {
+		const VarMap& dm = v.declMap[f];
+		if (dm.find(use) != dm.end())
+		{
+		    if (f != func)
+		    {
+			needed[func].insert({ use, f });
+		    }
+		    break;
+		}
+	    }
 	}
+    }
 
-	// Now search up the stack until to see if
-	// it's local "above" us.
-	std::set<VarDef> used;
-	for (auto use : uses)
+    // To call a function or pass it on, have all the variables it needs, unless they are declared here.
+    bool changed;
+    do
+    {
+	changed = false;
+	for (auto func : v.functions)
 	{
-	    for (const FunctionAST* f = func->Parent(); f; f = f->Parent())
+	    for (auto ref : v.refMap[func])
 	    {
-		const VarMap& dm = v.declMap[f];
-		auto          v = dm.find(use);
-		if (v != dm.end())
+		for (auto need : needed[ref])
 		{
-		    used.insert(v->second);
-		    break;
+		    if (need.second != func)
+		    {
+			changed |= needed[func].insert(need).second;
+		    }
 		}
 	    }
 	}
+    } while (changed);
+
+    for (auto func : v.functions)
+    {
+	std::set<VarDef> used;
+	for (auto need : needed[func])
+	{
+	    const VarMap& dm = v.declMap[need.second];
+	    used.insert(dm.find(need.first)->second);
+	}
 
 	func->SetUsedVars(used);
 	if (Types::TypeDecl* closure = func->ClosureType())
diff --git a/expr.h b/expr.h
index 0607e34..ee85cca 100644
--- a/expr.h
+++ b/expr.h
@@ -559,6 +559,7 @@ public:
     const std::string&         Name() const { return name; }
     const std::string&         ResName() const { return resname; }
     const std::vector<VarDef>& Args() const { return args; }
+    void RenameArg(size_t n, const std::string& nm) { args[n] = VarDef(nm, args[n].Type(), args[n].GetFlags()); }
     bool                       IsForward() const { return isForward; }
     bool                       HasSelf() const { return hasSelf; }
     void                       SetIsForward(bool v);
@@ -603,6 +604,8 @@ public:
     static bool             classof(const ExprAST* e) { return e->getKind() == EK_Function; }
     void                    accept(ASTVisitor& v) override;
     void                    EndLoc(const Location& loc) { endLoc = loc; }
+    const BlockAST*         Body() const { return body; }
+    BlockAST*               Body() { return body; }
 
 private:
     PrototypeAST*             proto;
diff --git a/parser.cpp b/parser.cpp
index e6d78e1..ed7d52b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -106,6 +106,7 @@ public:
     // Statements, blocks and calls
     ExprAST*      ParseStatement();
     VarDeclAST*   ParseVarDecls();
+    std::string   UniqueName(const std::string& name);
     BlockAST*     ParseBlock(Location& endLoc);
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
@@ -210,12 +211,24 @@ private:
     bool                      nextTokenValid;
     std::string               moduleName;
     int                       errCnt;
+    int                       funcLevel;
+    int                       uniqueCount;
     Stack<const NamedObject*> nameStack;
     std::vector<ExprAST*>     ast;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
 
+class FunctionLevel
+{
+public:
+    FunctionLevel(int& l) : level(l) { level++; }
+    ~FunctionLevel() { level--; }
+
+private:
+    int& level;
+};
+
 static std::string ShortName(const std::string& name)
 {
     std::string            shortname = name;
@@ -3262,6 +3275,17 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
     return 0;
 }
 
+// Variables are passed to nested functions by name, so in a nested function a variable that hides another
+// needs a name of its own.
+std::string Parser::UniqueName(const std::string& name)
+{
+    if (funcLevel > 1 && llvm::isa_and_nonnull<VarDef>(nameStack.Find(name)))
+    {
+	return name + "." + std::to_string(++uniqueCount);
+    }
+    return name;
+}
+
 VarDeclAST* Parser::ParseVarDecls()
 {
     TRACE();
@@ -3278,9 +3302,9 @@ VarDeclAST* Parser::ParseVarDecls()
 	    {
 		for (auto n : ccv.Names())
 		{
-		    VarDef v(n, type);
+		    VarDef v(UniqueName(n), type);
 		    varList.push_back(v);
-		    if (!nameStack.Add(new VarDef(v)))
+		    if (!nameStack.Add(n, new VarDef(v)))
 		    {
 			return Error("Name '" + n + "' is already defined");
 		    }
@@ -3695,22 +3719,29 @@ FunctionAST* Parser::ParseDefinition(int level)
 	nameStack.Add(vd);
     }
 
-    for (auto& v : proto->Args())
+    FunctionLevel funcLev(funcLevel);
+    for (size_t i = 0; i < proto->Args().size(); i++)
     {
-	if (!nameStack.Add(&v))
+	const VarDef&     v = proto->Args()[i];
+	const std::string name = v.Name();
+	proto->RenameArg(i, UniqueName(name));
+	if (!nameStack.Add(name, &v))
 	{
-	    return Error("Duplicate name '" + v.Name() + "'.");
+	    return Error("Duplicate name '" + name + "'.");
 	}
 	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
 	{
 	    Types::DynRangeDecl* dr = dty->Range();
-	    if (!nameStack.Add(new VarDef(dr->LowName(), dr->SubType())))
+	    const std::string    low = dr->LowName();
+	    const std::string    high = dr->HighName();
+	    dr->Rename(UniqueName(low), UniqueName(high));
+	    if (!nameStack.Add(low, new VarDef(dr->LowName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->LowName() + "'.");
+		return Error("Duplicate name '" + low + "'.");
 	    }
-	    if (!nameStack.Add(new VarDef(dr->HighName(), dr->SubType())))
+	    if (!nameStack.Add(high, new VarDef(dr->HighName(), dr->SubType())))
 	    {
-		return Error("Duplicate name '" + dr->HighName() + "'.");
+		return Error("Duplicate name '" + high + "'.");
 	    }
 	}
     }
@@ -4738,7 +4769,7 @@ ExprAST* Parser::Parse(ParserType type)
     return ParseUnit(type);
 }
 
-Parser::Parser(Source& source) : lexer(source), nextTokenValid(false), errCnt(0)
+Parser::Parser(Source& source) : lexer(source), nextTokenValid(false), errCnt(0), funcLevel(0), uniqueCount(0)
 {
     const llvm::fltSemantics& sem = llvm::APFloat::IEEEdouble();
     double                    maxReal = llvm::APFloat::getLargest(sem).convertToDouble();
diff --git a/types.h b/types.h
index e7d4d8b..8410ab0 100644
--- a/types.h
+++ b/types.h
@@ -295,6 +295,11 @@ namespace Types
 	static bool        classof(const TypeDecl* e) { return e->getKind() == TK_DynRange; }
 	const std::string& LowName() { return lowName; }
 	const std::string& HighName() { return highName; }
+	void               Rename(const std::string& lName, const std::string& hName)
+	{
+	    lowName = lName;
+	    highName = hName;
+	}
 	size_t             RangeSize() const override
 	{
 	    ICE("Huh? Dynamic range size?");
-- 
2.43.0


From 01fb2efbd8d6d3b9014a832ea7a557c243500450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 19/53] fix: a conformant array captured by a nested procedure
 had no bounds there

---
 callgraph.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/callgraph.cpp b/callgraph.cpp
index 4f5aeb3..f2209c2 100644
--- a/callgraph.cpp
+++ b/callgraph.cpp
@@ -215,11 +215,18 @@ void BuildClosures(ExprAST* ast)
 	    for (const FunctionAST* f = func; f; f = f->Parent())
 	    {
 		const VarMap& dm = v.declMap[f];
-		if (dm.find(use) != dm.end())
+		auto          it = dm.find(use);
+		if (it != dm.end())
 		{
 		    if (f != func)
 		    {
 			needed[func].insert({ use, f });
+			if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(it->second.Type()))
+			{
+			    // The array is accessed through its bounds.
+			    needed[func].insert({ dty->Range()->LowName(), f });
+			    needed[func].insert({ dty->Range()->HighName(), f });
+			}
 		    }
 		    break;
 		}
-- 
2.43.0


From 2bee1875c9f2a2b61c203328d276b46a72bff454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 20/53] fix: string and integer builtins: argument widths,
 temporary sizes, and results by pointer

---
 builtin.cpp      | 54 +++++++++++++++++++++++++++++-------------------
 runtime/params.c | 11 +++++-----
 runtime/string.c | 13 ++++--------
 3 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 5abb796..a4b39a3 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -22,6 +22,13 @@ namespace Builtin
 	return true;
     }
 
+    // The value of an argument of any integral type, as an integer.
+    static llvm::Value* IntegerArg(llvm::IRBuilder<>& builder, ExprAST* arg)
+    {
+	return builder.CreateIntCast(arg->CodeGen(), Types::Get<Types::IntegerDecl>()->LlvmType(),
+	                             !IsUnsigned(arg->Type()), "intarg");
+    }
+
     using ArgList = const std::vector<ExprAST*>;
     using CreateBIFObject = std::function<FunctionBase*(const std::string&, ArgList&)>;
 
@@ -162,6 +169,11 @@ namespace Builtin
     {
     public:
 	using FunctionInt::FunctionInt;
+	Types::TypeDecl* Type() const override
+	{
+	    bool isLong = !args.empty() && llvm::isa<Types::Int64Decl>(args[0]->Type());
+	    return isLong ? args[0]->Type() : FunctionInt::Type();
+	}
 	llvm::Value* CodeGen(llvm::IRBuilder<>& builder) override;
 	ErrorType    Semantics() override;
     };
@@ -813,7 +825,7 @@ namespace Builtin
     llvm::Value* FunctionChr::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	return builder.CreateTrunc(a, Types::Get<Types::CharDecl>()->LlvmType(), "chr");
+	return builder.CreateZExtOrTrunc(a, Types::Get<Types::CharDecl>()->LlvmType(), "chr");
     }
 
     ErrorType FunctionChr::Semantics()
@@ -832,7 +844,7 @@ namespace Builtin
     llvm::Value* FunctionOrd::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* a = args[0]->CodeGen();
-	return builder.CreateZExt(a, Types::Get<Types::IntegerDecl>()->LlvmType(), "ord");
+	return builder.CreateZExt(a, Type()->LlvmType(), "ord");
     }
 
     ErrorType FunctionOrd::Semantics()
@@ -955,7 +967,7 @@ namespace Builtin
 	llvm::Value* v = MakeIntegerConstant(0);
 	if (args.size() == 1)
 	{
-	    v = args[0]->CodeGen();
+	    v = IntegerArg(builder, args[0]);
 	}
 
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
@@ -1211,7 +1223,7 @@ namespace Builtin
 
     llvm::Value* FunctionLength::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* v = MakeAddressable(args[0]);
+	llvm::Value* v = MakeStringFromExpr(args[0], args[0]->Type());
 	llvm::Type*  charTy = Types::Get<Types::CharDecl>()->LlvmType();
 	v = builder.CreateGEP(charTy, v, MakeIntegerConstant(0), "str_0");
 	v = builder.CreateLoad(charTy, v, "len");
@@ -1225,7 +1237,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgCount;
 	}
-	if (!llvm::isa<Types::StringDecl>(args[0]->Type()))
+	if (!IsStringLike(args[0]->Type()))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1270,7 +1282,7 @@ namespace Builtin
     llvm::Value* FunctionCopy::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* start = args[1]->CodeGen();
+	llvm::Value* start = IntegerArg(builder, args[1]);
 
 	llvm::Value* len;
 	if (args.size() == 2)
@@ -1279,15 +1291,16 @@ namespace Builtin
 	}
 	else
 	{
-	    len = args[2]->CodeGen();
-	    ;
+	    len = IntegerArg(builder, args[2]);
 	}
 
-	std::vector<llvm::Type*> argTypes = { str->getType(), start->getType(), len->getType() };
-	llvm::Type*              strTy = Type()->LlvmType();
-	llvm::FunctionCallee     f = GetFunction(strTy, argTypes, "__StrCopy");
+	llvm::Value*             res = CreateTempAlloca(Type());
+	std::vector<llvm::Type*> argTypes = { res->getType(), str->getType(), start->getType(), len->getType() };
+	llvm::FunctionCallee     f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes,
+	                                         "__StrCopy");
 
-	return builder.CreateCall(f, { str, start, len }, "copy");
+	builder.CreateCall(f, { res, str, start, len });
+	return res;
     }
 
     ErrorType FunctionCopy::Semantics()
@@ -1310,7 +1323,7 @@ namespace Builtin
     llvm::Value* FunctionTrim::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	llvm::Value* res = CreateTempAlloca(args[0]->Type());
+	llvm::Value* res = CreateTempAlloca(Type());
 
 	llvm::Type*          ty = str->getType();
 	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { ty, ty },
@@ -1405,7 +1418,7 @@ namespace Builtin
 	    llvm::Type*          ty = type->LlvmType();
 	    llvm::FunctionCallee f = GetFunction(ty, { ty }, name);
 	    llvm::Value*         a = args[0]->CodeGen();
-	    return builder.CreateCall(f, a, "popcnt");
+	    return builder.CreateZExtOrTrunc(builder.CreateCall(f, a, "popcnt"), Type()->LlvmType());
 	}
 
 	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
@@ -1474,14 +1487,13 @@ namespace Builtin
 
     llvm::Value* FunctionParamstr::CodeGen(llvm::IRBuilder<>& builder)
     {
-	llvm::Value* n = args[0]->CodeGen();
-
-	std::vector<llvm::Type*> argTypes = { n->getType() };
-
-	llvm::FunctionType*  ft = llvm::FunctionType::get(Type()->LlvmType(), argTypes, false);
-	llvm::FunctionCallee f = theModule->getOrInsertFunction("__ParamStr", ft);
+	llvm::Value*         n = IntegerArg(builder, args[0]);
+	llvm::Value*         res = CreateTempAlloca(Type());
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(),
+	                                     { res->getType(), n->getType() }, "__ParamStr");
 
-	return builder.CreateCall(f, n, "paramstr");
+	builder.CreateCall(f, { res, n });
+	return res;
     }
 
     ErrorType FunctionParamstr::Semantics()
diff --git a/runtime/params.c b/runtime/params.c
index c28b7a0..a87dbcb 100644
--- a/runtime/params.c
+++ b/runtime/params.c
@@ -4,20 +4,19 @@
 extern char** c_argv;
 extern int    c_argc;
 
-String __ParamStr(int n)
+void __ParamStr(String* res, int n)
 {
-    String s = { 0, "" };
-    if (n < c_argc)
+    res->len = 0;
+    if (n >= 0 && n < c_argc)
     {
 	size_t len = strlen(c_argv[n]);
 	if (len > 255)
 	{
 	    len = 255;
 	}
-	memcpy(s.str, c_argv[n], len);
-	s.len = len;
+	memcpy(res->str, c_argv[n], len);
+	res->len = len;
     }
-    return s;
 }
 
 int __ParamCount()
diff --git a/runtime/string.c b/runtime/string.c
index b7002b8..82b024f 100644
--- a/runtime/string.c
+++ b/runtime/string.c
@@ -52,7 +52,7 @@ int __StrCompare(String* a, String* b)
 }
 
 /* Return substring of input */
-String __StrCopy(String* str, int start, int len)
+void __StrCopy(String* res, const String* str, int start, int len)
 {
     assert(start >= 1);
     assert(len >= 0);
@@ -61,18 +61,13 @@ String __StrCopy(String* str, int start, int len)
     {
 	len = 0;
     }
-    if (start + len > str->len)
+    else if (len > str->len - (start - 1))
     {
 	len = str->len - (start - 1);
-	if (len < 0)
-	{
-	    len = 0;
-	}
     }
 
-    String result = { len, "" };
-    memcpy(result.str, &str->str[start - 1], len);
-    return result;
+    res->len = len;
+    memcpy(res->str, &str->str[start - 1], len);
 }
 
 /* Return "trimmed" string - remove leading and trailing spaces */
-- 
2.43.0


From 2087fa4da758760681a8aeb0d9fd42ed95d0db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 21/53] fix: conformant array parameters can be passed on, and
 several can share a schema

---
 expr.cpp   | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 parser.cpp |  7 +++++--
 types.cpp  |  4 ++++
 3 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index c163d89..e986f0c 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1574,6 +1574,29 @@ void CallExprAST::DoDump() const
     std::cerr << ")";
 }
 
+static llvm::Value* CopyDynArray(llvm::Value* src, Types::TypeDecl* ty)
+{
+    auto        dty = llvm::cast<Types::DynArrayDecl>(ty);
+    llvm::Type* dynTy = dty->LlvmType();
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type* elemTy = dty->SubType()->LlvmType();
+    llvm::Type* ptrTy = llvm::PointerType::getUnqual(elemTy);
+
+    llvm::Value* data = builder.CreateLoad(ptrTy, builder.CreateStructGEP(dynTy, src, 0));
+    llvm::Value* low = builder.CreateLoad(intTy, builder.CreateStructGEP(dynTy, src, 1));
+    llvm::Value* high = builder.CreateLoad(intTy, builder.CreateStructGEP(dynTy, src, 2));
+    llvm::Value* count = builder.CreateAdd(builder.CreateSub(high, low), MakeIntegerConstant(1), "count");
+    llvm::Value* copy = builder.CreateAlloca(elemTy, count, "copy");
+    llvm::Value* size = builder.CreateMul(count, MakeIntegerConstant(dty->SubType()->Size()), "size");
+    builder.CreateMemCpy(copy, llvm::MaybeAlign(), data, llvm::MaybeAlign(), size);
+
+    llvm::Value* dest = CreateTempAlloca(ty);
+    builder.CreateStore(copy, builder.CreateStructGEP(dynTy, dest, 0));
+    builder.CreateStore(low, builder.CreateStructGEP(dynTy, dest, 1));
+    builder.CreateStore(high, builder.CreateStructGEP(dynTy, dest, 2));
+    return dest;
+}
+
 static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args,
                                                const std::vector<VarDef>&   vdef)
 {
@@ -1588,6 +1611,14 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	{
 	    v = ca->CodeGen();
 	}
+	else if (llvm::isa<Types::DynArrayDecl>(i->Type()))
+	{
+	    // Pass on what the caller gave us, or a copy.
+	    v = MakeAddressable(i);
+	    argsV.push_back(vdef[index].IsRef() ? v : CopyDynArray(v, i->Type()));
+	    index++;
+	    continue;
+	}
 	else
 	{
 	    auto vi = llvm::dyn_cast<AddressableAST>(i);
@@ -1727,6 +1758,14 @@ llvm::Value* CallExprAST::CodeGen()
     const std::vector<VarDef>& vdef = proto->Args();
     ICE_IF(vdef.size() != args.size(), "Incorrect number of arguments for function");
 
+    // Space for copies of conformant arrays is only needed during the call.
+    llvm::Value* stack = 0;
+    if (std::any_of(args.begin(), args.end(),
+                    [](ExprAST* a) { return llvm::isa<Types::DynArrayDecl>(a->Type()); }))
+    {
+	stack = builder.CreateStackSave("stack");
+    }
+
     std::vector<llvm::Type*>  argTypes = CreateArgTypes(vdef);
     std::vector<llvm::Value*> argsV = CreateArgList(args, vdef);
     llvm::AttributeList       attrList = CreateAttrList(vdef);
@@ -1740,6 +1779,10 @@ llvm::Value* CallExprAST::CodeGen()
     llvm::FunctionCallee f = GetFunction(resType, argTypes, calleF);
     llvm::CallInst*      inst = builder.CreateCall(f, argsV, res);
     inst->setAttributes(attrList);
+    if (stack)
+    {
+	builder.CreateStackRestore(stack);
+    }
 
     return inst;
 }
@@ -1914,7 +1957,9 @@ void PrototypeAST::CreateArgumentAlloca()
 	if (args[idx].IsRef() || IsCompound(args[idx].Type()))
 	{
 	    a = &*ai;
-	    if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(args[idx].Type()))
+	    // Parameters of the same type share the bounds.
+	    auto dty = llvm::dyn_cast<Types::DynArrayDecl>(args[idx].Type());
+	    if (dty && (idx == offset || args[idx - 1].Type() != dty))
 	    {
 		Types::DynRangeDecl* dr = dty->Range();
 		llvm::Type*          dynTy = dty->LlvmType();
diff --git a/parser.cpp b/parser.cpp
index ed7d52b..1a1e0f1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3719,7 +3719,8 @@ FunctionAST* Parser::ParseDefinition(int level)
 	nameStack.Add(vd);
     }
 
-    FunctionLevel funcLev(funcLevel);
+    FunctionLevel          funcLev(funcLevel);
+    const Types::TypeDecl* prevType = 0;
     for (size_t i = 0; i < proto->Args().size(); i++)
     {
 	const VarDef&     v = proto->Args()[i];
@@ -3729,7 +3730,8 @@ FunctionAST* Parser::ParseDefinition(int level)
 	{
 	    return Error("Duplicate name '" + name + "'.");
 	}
-	if (auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type()))
+	auto dty = llvm::dyn_cast<Types::DynArrayDecl>(v.Type());
+	if (dty && dty != prevType)
 	{
 	    Types::DynRangeDecl* dr = dty->Range();
 	    const std::string    low = dr->LowName();
@@ -3744,6 +3746,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 		return Error("Duplicate name '" + high + "'.");
 	    }
 	}
+	prevType = v.Type();
     }
 
     std::vector<VarDeclAST*>  varDecls;
diff --git a/types.cpp b/types.cpp
index 2895931..afff2b5 100644
--- a/types.cpp
+++ b/types.cpp
@@ -462,6 +462,10 @@ namespace Types
 	    }
 	    return aty;
 	}
+	if (const auto dty = llvm::dyn_cast<DynArrayDecl>(ty))
+	{
+	    return dty->SubType() == SubType() ? dty : 0;
+	}
 	return 0;
     }
 
-- 
2.43.0


From eb6fd8711d47224b2f5025fa7db102fb7348b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 22/53] fix: records that contain arrays of pointers to
 themselves crashed the compiler

A pointer's LLVM type was made from the type pointed to, which recursed
without end for a record with an array of pointers to the same record, and
records with forward pointers were left without a size inside other types.
---
 types.cpp | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/types.cpp b/types.cpp
index afff2b5..2d0c360 100644
--- a/types.cpp
+++ b/types.cpp
@@ -311,7 +311,8 @@ namespace Types
 
     llvm::Type* PointerDecl::GetLlvmType() const
     {
-	return llvm::PointerType::getUnqual(baseType->LlvmType());
+	// Not made from the type pointed at, which may well contain this type.
+	return llvm::PointerType::getUnqual(theContext);
     }
 
     llvm::DIType* PointerDecl::GetDIType(llvm::DIBuilder* builder) const
@@ -616,17 +617,6 @@ namespace Types
 	for (auto f : fields)
 	{
 	    llvm::Type* ty = f->LlvmType();
-	    if (auto pf = llvm::dyn_cast<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsIncomplete())
-		{
-		    if (!opaqueType)
-		    {
-			opaqueType = llvm::StructType::create(theContext, name);
-		    }
-		    return opaqueType;
-		}
-	    }
 	    maxSize = std::max<size_t>(maxSize, dl.getTypeAllocSize(ty));
 	    maxAlign = std::max<size_t>(maxAlign, dl.getABITypeAlign(ty).value());
 	}
@@ -733,17 +723,6 @@ namespace Types
 	std::vector<llvm::Type*> fv;
 	for (auto f : fields)
 	{
-	    if (auto pf = llvm::dyn_cast_or_null<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsIncomplete() || !HasLlvmType(f))
-		{
-		    if (!opaqueType)
-		    {
-			opaqueType = llvm::StructType::create(theContext, name);
-		    }
-		    return opaqueType;
-		}
-	    }
 	    fv.push_back(f->LlvmType());
 	}
 	if (variant)
@@ -1096,17 +1075,6 @@ namespace Types
 
 	    if (!f->IsStatic())
 	    {
-		if (auto pd = llvm::dyn_cast<PointerDecl>(f->SubType()))
-		{
-		    if (pd->IsIncomplete() && !HasLlvmType(pd))
-		    {
-			if (!opaqueType)
-			{
-			    opaqueType = llvm::StructType::create(theContext, Name());
-			}
-			return opaqueType;
-		    }
-		}
 		fv.push_back(f->LlvmType());
 	    }
 	}
-- 
2.43.0


From a366f723be60eff5cb08279a077f410cdca332b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 23/53] fix: debug information gave arrays and sets their upper
 bound as the number of elements

Which made LLVM give up on arrays with an upper bound of -1 or less.
---
 types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 2d0c360..b7cf99a 100644
--- a/types.cpp
+++ b/types.cpp
@@ -360,7 +360,7 @@ namespace Types
 	for (auto r : ranges)
 	{
 	    Range* rr = r->GetRange();
-	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	    subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	}
 	llvm::DIType* bd = baseType->DebugType(builder);
 	if (!bd)
@@ -1213,7 +1213,7 @@ namespace Types
     {
 	std::vector<llvm::Metadata*> subscripts;
 	Range*                       rr = range->GetRange();
-	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->End()));
+	subscripts.push_back(builder->getOrCreateSubrange(rr->Start(), rr->Size()));
 	llvm::DIType*     bd = builder->createBasicType("INTEGER", 32, llvm::dwarf::DW_ATE_unsigned);
 	llvm::DINodeArray subsArray = builder->getOrCreateArray(subscripts);
 	return builder->createArrayType(baseType->Size() * CHAR_BIT, baseType->AlignSize() * CHAR_BIT, bd,
-- 
2.43.0


From 9bb74961dc5e76e769929d0ec2a0044c073f7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 24/53] fix: range checks failed an internal check for every
 array

The checks accepted only what was not a fixed range, and had the wrong upper
bound. The index and the bounds are now computed in the same way with and
without checks, for bounds of any ordinal type: an index of a conformant array
was sign extended from the size of the index type, and bounds beyond 32 bits
were cut off.
---
 expr.cpp             | 108 ++++++++++++++++++-------------------------
 expr.h               |   3 ++
 parser.cpp           |   9 +++-
 runtime/rangeerror.c |   4 +-
 types.cpp            |   5 +-
 types.h              |   4 +-
 6 files changed, 63 insertions(+), 70 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index e986f0c..9da6ae0 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1685,8 +1685,9 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 	    llvm::Value*    arrStart = builder.CreateGEP(ptrTy, v, zero);
 	    builder.CreateStore(arrStart, arrPtr);
 	    auto         r = llvm::dyn_cast<Types::RangeDecl>(aty->Ranges()[0]);
-	    llvm::Value* low = MakeIntegerConstant(r->Start());
-	    llvm::Value* high = MakeIntegerConstant(r->End());
+	    auto         longTy = Types::Get<Types::Int64Decl>();
+	    llvm::Value* low = MakeConstant(r->GetRange()->Start(), longTy);
+	    llvm::Value* high = MakeConstant(r->GetRange()->End(), longTy);
 	    llvm::Value* lPtr = builder.CreateGEP(dynTy, x, { zero, one });
 	    llvm::Value* hPtr = builder.CreateGEP(dynTy, x, { zero, two });
 	    builder.CreateStore(low, lPtr);
@@ -3938,42 +3939,45 @@ void RangeReduceAST::DoDump() const
     std::cerr << "]";
 }
 
-llvm::Value* RangeReduceAST::CodeGen()
+// Widen (if need be) to at least an integer, in the way that the type needs.
+static llvm::Value* ExtendToInt(llvm::Value* v, const Types::TypeDecl* ty)
 {
-    TRACE();
+    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    if (v->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
+    {
+	return builder.CreateIntCast(v, intTy, !IsUnsigned(ty), "ext");
+    }
+    return v;
+}
 
+llvm::Value* RangeReduceAST::Index()
+{
     ICE_IF(!IsIntegral(expr->Type()), "Index is supposed to be integral type");
     llvm::Value* index = expr->CodeGen();
+    ICE_IF(!index, "Expected expression to generate code");
+    return ExtendToInt(index, expr->Type());
+}
 
-    llvm::Type* ty = index->getType();
+llvm::Value* RangeReduceAST::Bound(bool high, llvm::Type* ty)
+{
     if (auto dr = llvm::dyn_cast<Types::DynRangeDecl>(range))
     {
-	llvm::Value* low = variables.FindTopLevel(dr->LowName());
-	low = builder.CreateLoad(ty, low, "low");
-	index = builder.CreateSub(index, low);
-    }
-    else
-    {
-	auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-	ICE_IF(!rr, "This should be a RangeDecl");
-	if (int start = rr->Start())
-	{
-	    index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
-	}
-	llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-	if (ty->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
-	{
-	    if (IsUnsigned(expr->Type()))
-	    {
-		index = builder.CreateZExt(index, intTy, "zext");
-	    }
-	    else
-	    {
-		index = builder.CreateSExt(index, intTy, "sext");
-	    }
-	}
+	const std::string& name = high ? dr->HighName() : dr->LowName();
+	llvm::Type*        boundTy = dr->SubType()->LlvmType();
+	llvm::Value*       bound = builder.CreateLoad(boundTy, variables.FindTopLevel(name), name);
+	return builder.CreateIntCast(ExtendToInt(bound, dr->SubType()), ty, true);
     }
-    return index;
+    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
+    ICE_IF(!rr, "This should be a RangeDecl");
+    return llvm::ConstantInt::get(ty, high ? rr->GetRange()->End() : rr->GetRange()->Start(), true);
+}
+
+llvm::Value* RangeReduceAST::CodeGen()
+{
+    TRACE();
+
+    llvm::Value* index = Index();
+    return builder.CreateSub(index, Bound(false, index->getType()));
 }
 
 void RangeCheckAST::DoDump() const
@@ -3989,35 +3993,14 @@ llvm::Value* RangeCheckAST::CodeGen()
 {
     TRACE();
 
-    llvm::Value* index = expr->CodeGen();
-    ICE_IF(!index, "Expected expression to generate code");
-    ICE_IF(!index->getType()->isIntegerTy(), "Index is supposed to be integral type");
-
-    llvm::Value* orig_index = index;
-    llvm::Type*  intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
-
-    auto rr = llvm::dyn_cast<Types::RangeDecl>(range);
-    ICE_IF(rr, "Expect a rangedecl here");
-    int start = rr->Start();
-    if (start)
-    {
-	index = builder.CreateSub(index, MakeConstant(start, expr->Type()));
-    }
-    if (index->getType()->getPrimitiveSizeInBits() < intTy->getPrimitiveSizeInBits())
-    {
-	if (IsUnsigned(expr->Type()))
-	{
-	    index = builder.CreateZExt(index, intTy, "zext");
-	    orig_index = builder.CreateZExt(orig_index, intTy, "zext");
-	}
-	else
-	{
-	    index = builder.CreateSExt(index, intTy, "sext");
-	    orig_index = builder.CreateSExt(orig_index, intTy, "sext");
-	}
-    }
-    int               end = rr->GetRange()->Size();
-    llvm::Value*      cmp = builder.CreateICmpUGE(index, MakeIntegerConstant(end), "rangecheck");
+    llvm::Type*       intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    llvm::Type*       longTy = Types::Get<Types::Int64Decl>()->LlvmType();
+    llvm::Value*      index = builder.CreateIntCast(Index(), longTy, true);
+    llvm::Value*      low = Bound(false, longTy);
+    llvm::Value*      high = Bound(true, longTy);
+    llvm::Value*      below = builder.CreateICmpSLT(index, low, "below");
+    llvm::Value*      above = builder.CreateICmpSGT(index, high, "above");
+    llvm::Value*      cmp = builder.CreateOr(below, above, "rangecheck");
     llvm::Function*   theFunction = builder.GetInsertBlock()->getParent();
     llvm::BasicBlock* oorBlock = llvm::BasicBlock::Create(theContext, "out_of_range", theFunction);
     llvm::BasicBlock* contBlock = llvm::BasicBlock::Create(theContext, "continue", theFunction);
@@ -4025,10 +4008,9 @@ llvm::Value* RangeCheckAST::CodeGen()
 
     builder.SetInsertPoint(oorBlock);
     std::vector<llvm::Value*> args = { builder.CreateGlobalString(Loc().FileName()),
-	                               MakeIntegerConstant(Loc().LineNumber()), MakeIntegerConstant(start),
-	                               MakeIntegerConstant(end), orig_index };
+	                               MakeIntegerConstant(Loc().LineNumber()), low, high, index };
     std::vector<llvm::Type*>  argTypes = {
-        llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, intTy, intTy, intTy
+        llvm::PointerType::getUnqual(Types::Get<Types::CharDecl>()->LlvmType()), intTy, longTy, longTy, longTy
     };
 
     llvm::FunctionCallee fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "range_error");
@@ -4037,7 +4019,7 @@ llvm::Value* RangeCheckAST::CodeGen()
     builder.CreateUnreachable();
 
     builder.SetInsertPoint(contBlock);
-    return index;
+    return builder.CreateIntCast(builder.CreateSub(index, low), intTy, true);
 }
 
 void TypeCastAST::DoDump() const
diff --git a/expr.h b/expr.h
index ee85cca..9a62fea 100644
--- a/expr.h
+++ b/expr.h
@@ -907,6 +907,9 @@ public:
     }
 
 protected:
+    llvm::Value* Index();
+    llvm::Value* Bound(bool high, llvm::Type* ty);
+
     ExprAST*              expr;
     Types::RangeBaseDecl* range;
 };
diff --git a/parser.cpp b/parser.cpp
index 1a1e0f1..62c08d0 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -725,7 +725,14 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	    int64_t end = Constants::ToInt(endC);
 
 	    type = startC->Type();
-	    ICE_IF(type != endC->Type(), "Expect same type on both sides");
+	    if (!IsIntegral(type) || type != endC->Type())
+	    {
+		return Error("Expected two values of the same ordinal type");
+	    }
+	    if (llvm::isa<Types::IntegerDecl>(type) && (start != (int32_t)start || end != (int32_t)end))
+	    {
+		type = Types::Get<Types::Int64Decl>();
+	    }
 	    if (end < start)
 	    {
 		return Error("Invalid range specification");
diff --git a/runtime/rangeerror.c b/runtime/rangeerror.c
index dbfe979..f47c98d 100644
--- a/runtime/rangeerror.c
+++ b/runtime/rangeerror.c
@@ -1,8 +1,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-void range_error(const char* file, int line, int low, int high, int actual)
+void range_error(const char* file, int line, long long low, long long high, long long actual)
 {
-    fprintf(stderr, "%s:%d: Out of range [expected: %d..%d, got %d]\n", file, line, low, high, actual);
+    fprintf(stderr, "%s:%d: Out of range [expected: %lld..%lld, got %lld]\n", file, line, low, high, actual);
     exit(12);
 }
diff --git a/types.cpp b/types.cpp
index b7cf99a..90e7762 100644
--- a/types.cpp
+++ b/types.cpp
@@ -430,8 +430,9 @@ namespace Types
 	{
 	    llvm::Type* ty = baseType->LlvmType();
 	    llvm::Type* ptrTy = llvm::PointerType::getUnqual(ty);
-	    llvm::Type* intTy = Get<IntegerDecl>()->LlvmType();
-	    dynTy = llvm::StructType::create({ ptrTy, intTy, intTy }, "confArray");
+	    // Wide enough for bounds of any type.
+	    llvm::Type* longTy = Get<Int64Decl>()->LlvmType();
+	    dynTy = llvm::StructType::create({ ptrTy, longTy, longTy }, "confArray");
 	}
 	return dynTy;
     }
diff --git a/types.h b/types.h
index 8410ab0..5073212 100644
--- a/types.h
+++ b/types.h
@@ -275,8 +275,8 @@ namespace Types
 	void        DoDump() const override;
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Range; }
 	bool        SameAs(const TypeDecl* ty) const override;
-	int         Start() const { return range->Start(); }
-	int         End() const { return range->End(); }
+	int64_t     Start() const { return range->Start(); }
+	int64_t     End() const { return range->End(); }
 	size_t      RangeSize() const override { return range->Size(); }
 	TypeKind    Type() const override { return baseType->Type(); }
 	Range*      GetRange() const override { return range; }
-- 
2.43.0


From d84efba5ccec8416d8bdea1da059813ba5c81eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 25/53] fix: written strings stopped at chr(0), and long output
 could run past the end of a string

A width or precision of a subrange type was rejected, and the length of an
enumeration name above 127 was taken as negative.
---
 runtime/write.c | 43 ++++++++++++++-----------------------------
 semantics.cpp   |  4 ++--
 2 files changed, 16 insertions(+), 31 deletions(-)

diff --git a/runtime/write.c b/runtime/write.c
index a2a0f14..b6f454a 100644
--- a/runtime/write.c
+++ b/runtime/write.c
@@ -15,8 +15,14 @@ void __write_S_init(String* str)
     str->len = 0;
 }
 
+// Adds as much as there is room for in the string.
 static void SetStrResult(String* str, int n, const char* buffer)
 {
+    int room = MaxStringLen - str->len;
+    if (n > room)
+    {
+	n = room;
+    }
     memcpy(&str->str[str->len], buffer, n);
     str->len += n;
 }
@@ -163,41 +169,20 @@ void __write_chars(File* file, const char* v, int len, int width)
 
 void __write_S_str(String* str, const String* v, int width)
 {
-    char buffer[MaxStringLen + 1];
-    char s[MaxStringLen + 1];
-    int  n;
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	n = snprintf(buffer, sizeof(buffer), "%*s", width, s);
-    }
-    else
-    {
-	n = snprintf(buffer, sizeof(buffer), "%s", s);
-    }
-    SetStrResult(str, n, buffer);
+    (void)width;
+    SetStrResult(str, v->len, (const char*)v->str);
 }
 
 void __write_str(File* file, const String* v, int width)
 {
     FILE* f = getFile(file);
-    char  s[MaxStringLen + 1];
-    memcpy(s, v->str, v->len);
-    s[v->len] = 0;
-    if (width < v->len)
-    {
-	fprintf(f, "%*s", width, s);
-    }
-    else
-    {
-	fprintf(f, "%s", s);
-    }
+    (void)width;
+    fwrite(v->str, 1, v->len, f);
 }
 
 void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 {
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	static const char* msg = "Invalid Enum Value";
 	__write_S_chars(strout, msg, strlen(msg), width);
@@ -205,7 +190,7 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_S_chars(strout, str, len, width);
     }
@@ -214,14 +199,14 @@ void __write_S_enum(String* strout, int en, int width, struct EnumToString* e2s)
 void __write_enum(File* file, int en, int width, struct EnumToString* e2s)
 {
     static const char* msg = "Invalid Enum Value";
-    if (en < 0 || en > e2s->nelem)
+    if (en < 0 || en >= e2s->nelem)
     {
 	__write_chars(file, msg, strlen(msg), width);
     }
     else
     {
 	int   offset = e2s->offset[en];
-	int   len = e2s->strings[offset];
+	int   len = (unsigned char)e2s->strings[offset];
 	char* str = &e2s->strings[offset + 1];
 	__write_chars(file, str, len, width);
     }
diff --git a/semantics.cpp b/semantics.cpp
index ea16b9d..0d1db24 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1089,12 +1089,12 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 		{
 		    Error(e, "Unexpected precision argument when argument-type is not real");
 		}
-		else if (!llvm::isa<Types::IntegerDecl>(arg.precision->Type()))
+		else if (arg.precision->Type()->Type() != Types::TypeDecl::TK_Integer)
 		{
 		    Error(e, "Precision field should be integer.");
 		}
 	    }
-	    if (arg.width && !llvm::isa<Types::IntegerDecl>(arg.width->Type()))
+	    if (arg.width && arg.width->Type()->Type() != Types::TypeDecl::TK_Integer)
 	    {
 		Error(e, "Width field should be an integer");
 	    }
-- 
2.43.0


From da2315ec0639b828034232c5708698f11cd074bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 26/53] fix: debug information crashed on types that cannot be
 described and on recursive types

---
 expr.cpp  |  1 -
 types.cpp | 86 ++++++++++++++++++++++---------------------------------
 types.h   |  4 ---
 3 files changed, 34 insertions(+), 57 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 9da6ae0..90873ce 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -116,7 +116,6 @@ DebugInfo::~DebugInfo()
 {
     if (builder)
     {
-	Types::Finalize(builder);
 	builder->finalize();
     }
     delete builder;
diff --git a/types.cpp b/types.cpp
index 90e7762..41b335c 100644
--- a/types.cpp
+++ b/types.cpp
@@ -5,13 +5,13 @@
 #include "trace.h"
 #include <climits>
 #include <llvm/IR/LLVMContext.h>
+#include <map>
 #include <sstream>
 
 extern llvm::Module* theModule;
 
 namespace Types
 {
-    static std::vector<std::pair<TypeDecl*, llvm::TrackingMDRef>> fwdMap;
 
     size_t TypeDecl::Size() const
     {
@@ -65,9 +65,33 @@ namespace Types
 
     llvm::DIType* TypeDecl::DebugType(llvm::DIBuilder* builder) const
     {
-	if (!diType)
+	// The types being described, and what stands in for those that contain themselves.
+	static std::map<const TypeDecl*, llvm::DIType*> standIns;
+	if (diType)
+	{
+	    return diType;
+	}
+	auto it = standIns.find(this);
+	if (it != standIns.end())
+	{
+	    if (!it->second)
+	    {
+		it->second = builder->createReplaceableCompositeType(llvm::dwarf::DW_TAG_structure_type, "", 0, 0,
+		                                                     0);
+	    }
+	    return it->second;
+	}
+	standIns[this] = 0;
+	diType = GetDIType(builder);
+	llvm::DIType* standIn = standIns[this];
+	standIns.erase(this);
+	if (standIn)
 	{
-	    diType = GetDIType(builder);
+	    if (!diType)
+	    {
+		diType = builder->createUnspecifiedType(name);
+	    }
+	    builder->replaceTemporary(llvm::TempDIType(standIn), diType);
 	}
 	return diType;
     }
@@ -760,56 +784,27 @@ namespace Types
 	    sl = dl.getStructLayout(st);
 	}
 
-	// TODO: Need to deal with recursive types here...
 	for (auto f : fields)
 	{
-	    llvm::DIType* d = 0;
-	    size_t        size = 0;
-	    size_t        align = 0;
-	    if (auto pf = llvm::dyn_cast<PointerDecl>(f->SubType()))
-	    {
-		if (pf->IsForward() && !pf->DiType())
-		{
-		    std::string fullname = "";
-		    size = pf->SubType()->Size();
-		    align = pf->SubType()->AlignSize();
-		    d = builder->createReplaceableCompositeType(llvm::dwarf::DW_TAG_structure_type, "", scope,
-		                                                unit, lineNo, 0, size, align,
-		                                                llvm::DINode::FlagFwdDecl, fullname);
-		    pf->SubType()->DiType(d);
-		    fwdMap.push_back(std::make_pair(pf->SubType(), llvm::TrackingMDRef(d)));
-		    size = pf->Size();
-		    align = pf->AlignSize();
-		    d = builder->createPointerType(d, size, align);
-		    pf->DiType(d);
-		}
-		else
-		{
-		    d = pf->DiType();
-		}
-	    }
+	    const int     element = index++;
+	    llvm::DIType* d = f->DebugType(builder);
 	    if (!d)
 	    {
-		d = f->DebugType(builder);
-		ICE_IF(!d, "Expected debug type here");
+		// Not all types can be described yet.
+		continue;
 	    }
-	    size = f->Size() * CHAR_BIT;
-	    align = f->AlignSize() * CHAR_BIT;
+	    size_t size = f->Size() * CHAR_BIT;
+	    size_t align = f->AlignSize() * CHAR_BIT;
 	    size_t offsetInBits = 0;
 	    if (sl)
 	    {
-		offsetInBits = sl->getElementOffsetInBits(index);
+		offsetInBits = sl->getElementOffsetInBits(element);
 	    }
 	    d = builder->createMemberType(scope, f->Name(), unit, lineNo, size, align, offsetInBits,
 	                                  llvm::DINode::FlagZero, d);
-	    index++;
 	    eltTys.push_back(d);
 	}
 
-	if (diType)
-	{
-	    return diType;
-	}
 	llvm::DINodeArray elements = builder->getOrCreateArray(eltTys);
 
 	std::string   name = "";
@@ -1515,19 +1510,6 @@ namespace Types
 	return enum2strType;
     }
 
-    void Finalize(llvm::DIBuilder* builder)
-    {
-	for (auto t : fwdMap)
-	{
-	    llvm::DIType* ty = llvm::cast<llvm::DIType>(t.second);
-
-	    t.first->ResetDebugType();
-	    llvm::DIType* newTy = t.first->DebugType(builder);
-
-	    builder->replaceTemporary(llvm::TempDIType(ty), newTy);
-	}
-    }
-
     TypeDecl* CloneWithInit(const TypeDecl* ty, ExprAST* init)
     {
 	TypeDecl* newTy = ty->Clone();
diff --git a/types.h b/types.h
index 5073212..cddb6c1 100644
--- a/types.h
+++ b/types.h
@@ -118,9 +118,6 @@ namespace Types
 	virtual const TypeDecl* AssignableType(const TypeDecl* ty) const { return CompatibleType(ty); }
 	llvm::Type*             LlvmType() const;
 	llvm::DIType*           DebugType(llvm::DIBuilder* builder) const;
-	llvm::DIType*           DiType() const { return diType; }
-	void                    DiType(llvm::DIType* d) const { diType = d; }
-	void                    ResetDebugType() const { diType = 0; }
 	void                    dump() const;
 	virtual void            DoDump() const = 0;
 	TypeKind                getKind() const { return kind; }
@@ -752,7 +749,6 @@ namespace Types
 
     llvm::Type* GetVoidPtrType();
 
-    void Finalize(llvm::DIBuilder* builder);
 
     TypeDecl* CloneWithInit(const TypeDecl* ty, ExprAST* init);
 } // Namespace Types
-- 
2.43.0


From 0d625a205d46ecf035ca75aef85db9593d37ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 27/53] fix: conformant arrays of strings rejected arrays of
 the same string type

---
 types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.cpp b/types.cpp
index 41b335c..d8424ea 100644
--- a/types.cpp
+++ b/types.cpp
@@ -482,7 +482,7 @@ namespace Types
 	}
 	if (const auto aty = llvm::dyn_cast<ArrayDecl>(ty))
 	{
-	    if (aty->SubType() != SubType() || aty->Ranges().size() != 1)
+	    if (!aty->SubType()->SameAs(SubType()) || aty->Ranges().size() != 1)
 	    {
 		return 0;
 	    }
@@ -490,7 +490,7 @@ namespace Types
 	}
 	if (const auto dty = llvm::dyn_cast<DynArrayDecl>(ty))
 	{
-	    return dty->SubType() == SubType() ? dty : 0;
+	    return dty->SubType()->SameAs(SubType()) ? dty : 0;
 	}
 	return 0;
     }
-- 
2.43.0


From d2cb92a5035cab0b36c2f4dafcc09f132e913199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 28/53] fix: for loops and assignments mixed up integer and
 longint

---
 semantics.cpp | 4 ++--
 types.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics.cpp b/semantics.cpp
index 0d1db24..abf62f2 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -910,7 +910,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
     }
     if (f->end)
     {
-	if (const Types::TypeDecl* ty = f->start->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->start->Type()))
 	{
 	    f->start = Recast(f->start, ty);
 	}
@@ -918,7 +918,7 @@ void TypeCheckVisitor::Check<ForExprAST>(ForExprAST* f)
 	{
 	    bad = true;
 	}
-	if (const Types::TypeDecl* ty = f->end->Type()->AssignableType(vty))
+	if (const Types::TypeDecl* ty = vty->AssignableType(f->end->Type()))
 	{
 	    f->end = Recast(f->end, ty);
 	}
diff --git a/types.cpp b/types.cpp
index d8424ea..e88ee6c 100644
--- a/types.cpp
+++ b/types.cpp
@@ -540,7 +540,7 @@ namespace Types
 	{
 	    return ty;
 	}
-	return 0;
+	return baseType->AssignableType(ty);
     }
 
     void DynRangeDecl::DoDump() const
-- 
2.43.0


From 1c7c4d848730a32917f5201500937a33310b160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 29/53] fix: bounds of conformant arrays that are passed on
 lost their upper halves

---
 expr.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 90873ce..c22fbc9 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1577,16 +1577,17 @@ static llvm::Value* CopyDynArray(llvm::Value* src, Types::TypeDecl* ty)
 {
     auto        dty = llvm::cast<Types::DynArrayDecl>(ty);
     llvm::Type* dynTy = dty->LlvmType();
-    llvm::Type* intTy = Types::Get<Types::IntegerDecl>()->LlvmType();
+    auto        longDecl = Types::Get<Types::Int64Decl>();
+    llvm::Type* longTy = longDecl->LlvmType();
     llvm::Type* elemTy = dty->SubType()->LlvmType();
     llvm::Type* ptrTy = llvm::PointerType::getUnqual(elemTy);
 
     llvm::Value* data = builder.CreateLoad(ptrTy, builder.CreateStructGEP(dynTy, src, 0));
-    llvm::Value* low = builder.CreateLoad(intTy, builder.CreateStructGEP(dynTy, src, 1));
-    llvm::Value* high = builder.CreateLoad(intTy, builder.CreateStructGEP(dynTy, src, 2));
-    llvm::Value* count = builder.CreateAdd(builder.CreateSub(high, low), MakeIntegerConstant(1), "count");
+    llvm::Value* low = builder.CreateLoad(longTy, builder.CreateStructGEP(dynTy, src, 1));
+    llvm::Value* high = builder.CreateLoad(longTy, builder.CreateStructGEP(dynTy, src, 2));
+    llvm::Value* count = builder.CreateAdd(builder.CreateSub(high, low), MakeConstant(1, longDecl), "count");
     llvm::Value* copy = builder.CreateAlloca(elemTy, count, "copy");
-    llvm::Value* size = builder.CreateMul(count, MakeIntegerConstant(dty->SubType()->Size()), "size");
+    llvm::Value* size = builder.CreateMul(count, MakeConstant(dty->SubType()->Size(), longDecl), "size");
     builder.CreateMemCpy(copy, llvm::MaybeAlign(), data, llvm::MaybeAlign(), size);
 
     llvm::Value* dest = CreateTempAlloca(ty);
-- 
2.43.0


From 7abf2c8237f9faac60273f294961c79b3a827123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 30/53] fix: based literals with fractions or signs and reals
 out of range are rejected

---
 lexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index 4e639eb..db19bcf 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -1,6 +1,7 @@
 #include "lexer.h"
 
 #include <cctype>
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <limits>
@@ -48,7 +49,7 @@ static Token ConvertFloat(const std::string& num, const Location& w)
     double v = 0;
     char*  endPtr = 0;
     v = strtod(num.c_str(), &endPtr);
-    if (*endPtr != 0)
+    if (*endPtr != 0 || std::isinf(v))
     {
 	return Token(Token::Overflow, w);
     }
@@ -142,6 +143,10 @@ Token Lexer::NumberToken()
 		    {
 			return Token(Token::Unknown, w);
 		    }
+		    if (!ValidForBase(ch, base))
+		    {
+			return Token(Token::Unknown, w);
+		    }
 		    num = "";
 		}
 		num += ch;
@@ -186,11 +191,11 @@ Token Lexer::NumberToken()
 	}
 
 	// If the next char is a dot or an 'e'/'E', we have a floating point number.
-	if (ch == '.' && state != Fraction && base != 16)
+	if (ch == '.' && state != Fraction && base == 10)
 	{
 	    state = Fraction;
 	}
-	else if (state != Exponent && (ch == 'E' || ch == 'e'))
+	else if (state != Exponent && base == 10 && (ch == 'E' || ch == 'e'))
 	{
 	    state = Exponent;
 	}
-- 
2.43.0


From ec3a2210c3893ffdff7f829012383ba531f0d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 31/53] fix: comments that follow each other, characters beyond
 ASCII, and locations after blank lines

---
 lexer.cpp  | 29 +++++++++++++++++++----------
 source.cpp |  4 ++--
 source.h   |  4 ++--
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/lexer.cpp b/lexer.cpp
index db19bcf..55f8b31 100644
--- a/lexer.cpp
+++ b/lexer.cpp
@@ -239,7 +239,7 @@ Token Lexer::StringToken()
     NextChar();
     if (str.size() == 1)
     {
-	return Token(Token::Char, w, (uint64_t)str[0]);
+	return Token(Token::Char, w, (uint64_t)(unsigned char)str[0]);
     }
     return Token(Token::StringLiteral, w, str);
 }
@@ -260,23 +260,23 @@ static const SingleCharToken singleCharTokenTable[] = {
 
 Token Lexer::GetToken()
 {
-    int             ch = CurChar();
-    const Location& w = Where();
+    int      ch = CurChar();
+    Location w = Where();
 
-    do
+    // Skip white space and comments, of which any number may follow each other.
+    for (;;)
     {
-	while (isspace(ch))
+	if (isspace(ch))
 	{
 	    ch = NextChar();
 	}
-
-	if (ch == '{')
+	else if (ch == '{')
 	{
 	    while ((ch = NextChar()) != EOF && ch != '}')
 		;
 	    ch = NextChar();
 	}
-	if (ch == '(' && PeekChar() == '*')
+	else if (ch == '(' && PeekChar() == '*')
 	{
 	    NextChar(); /* Skip first * */
 	    while ((ch = NextChar()) != EOF && !(ch == '*' && PeekChar() == ')'))
@@ -285,15 +285,24 @@ Token Lexer::GetToken()
 	    ch = NextChar();
 	}
 	// C++ style comments.
-	if (ch == '/' && PeekChar() == '/')
+	else if (ch == '/' && PeekChar() == '/')
 	{
 	    do
 	    {
 		ch = NextChar();
 	    } while (ch != '\n' && ch != EOF);
 	}
+	else
+	{
+	    break;
+	}
+    }
 
-    } while (isspace(ch));
+    // A token on a later line is reported there, not where the white space began.
+    if (Location here = Where(); here.LineNumber() != w.LineNumber())
+    {
+	w = here;
+    }
 
     // EOF -> return now...
     if (ch == EOF)
diff --git a/source.cpp b/source.cpp
index 8f057bd..2a8e1b4 100644
--- a/source.cpp
+++ b/source.cpp
@@ -1,9 +1,9 @@
 #include "source.h"
 #include <iostream>
 
-char FileSource::Get()
+int FileSource::Get()
 {
-    char ch = input.get();
+    int ch = input.get();
     if (ch == '\n')
     {
 	lineNo++;
diff --git a/source.h b/source.h
index 46c34c6..0b0fa59 100644
--- a/source.h
+++ b/source.h
@@ -11,7 +11,7 @@ class Source
 {
 public:
     virtual ~Source() {}
-    virtual char Get() = 0;
+    virtual int Get() = 0;
     virtual operator bool() const = 0;
     virtual operator Location() const = 0;
     virtual void PrintSource(uint32_t line) {}
@@ -21,7 +21,7 @@ class FileSource : public Source
 {
 public:
     FileSource(const std::string& name) : name(name), input(name), column(1), lineNo(1) { lineStart[1] = 0; }
-    char Get() override;
+    int  Get() override;
     operator bool() const override { return (bool)input; }
     operator Location() const override { return Location(name, lineNo, column); }
     void PrintSource(uint32_t line) override;
-- 
2.43.0


From e9425063efcb4e3bf996942e236a1488bdc8064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 32/53] fix: names of fields, methods, schema parameters and
 function results are not case sensitive

---
 expr.cpp   |  2 +-
 parser.cpp |  4 ++--
 schema.cpp |  4 ++--
 types.cpp  |  6 +++---
 utils.cpp  | 11 +++++++++++
 utils.h    |  3 +++
 6 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index c22fbc9..476574e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3448,7 +3448,7 @@ llvm::Value* VarDeclAST::CodeGen()
 	}
 	if (!variables.Add(var.Name(), v))
 	{
-	    if (func || (var.Name() != "output" && var.Name() != "input"))
+	    if (func || !(SameName(var.Name(), "output") || SameName(var.Name(), "input")))
 	    {
 		return Error(this, "Duplicate name " + var.Name() + "!");
 	    }
diff --git a/parser.cpp b/parser.cpp
index 62c08d0..a95fc35 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3367,7 +3367,7 @@ void Parser::CheckProtoMatch(const PrototypeAST* proto, const std::string& funcN
     {
 	Error("Result type mismatch for " + funcName);
     }
-    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && proto->ResName() != resName)
+    if (!llvm::isa<Types::VoidDecl>(proto->Type()) && !SameName(proto->ResName(), resName))
     {
 	Error("Result name mismatch for " + funcName);
     }
@@ -3719,7 +3719,7 @@ FunctionAST* Parser::ParseDefinition(int level)
 	ExpandWithNames(proto->BaseObj(), v, 0);
     }
 
-    if (shortname != "" && proto->ResName() != shortname)
+    if (shortname != "" && !SameName(proto->ResName(), shortname))
     {
 	ICE_IF(!nmObj, "Named object expected");
 	VarDef* vd = new VarDef(proto->ResName(), proto->Type());
diff --git a/schema.cpp b/schema.cpp
index eb96764..f2a57a1 100644
--- a/schema.cpp
+++ b/schema.cpp
@@ -17,7 +17,7 @@ namespace Types
     {
 	for (const auto& v : vars)
 	{
-	    if (v.Name() == name)
+	    if (SameName(v.Name(), name))
 	    {
 		return &v;
 	    }
@@ -30,7 +30,7 @@ namespace Types
 	int index = 0;
 	for (auto a : vars)
 	{
-	    if (a.Name() == nm)
+	    if (SameName(a.Name(), nm))
 	    {
 		return index;
 	    }
diff --git a/types.cpp b/types.cpp
index e88ee6c..4e0aa54 100644
--- a/types.cpp
+++ b/types.cpp
@@ -685,7 +685,7 @@ namespace Types
 		    return i;
 		}
 	    }
-	    if (f->Name() == name)
+	    if (SameName(f->Name(), name))
 	    {
 		return i;
 	    }
@@ -854,7 +854,7 @@ namespace Types
 	    bool found = false;
 	    for (auto& j : membfuncs)
 	    {
-		if (j->Proto()->Name() == i->Proto()->Name())
+		if (SameName(j->Proto()->Name(), i->Proto()->Name()))
 		{
 		    j = i;
 		    found = true;
@@ -897,7 +897,7 @@ namespace Types
     {
 	for (size_t i = 0; i < membfuncs.size(); i++)
 	{
-	    if (membfuncs[i]->Proto()->Name() == nm)
+	    if (SameName(membfuncs[i]->Proto()->Name(), nm))
 	    {
 		return i;
 	    }
diff --git a/utils.cpp b/utils.cpp
index a93574e..eced0c8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -1,7 +1,18 @@
 #include "utils.h"
+#include "options.h"
 #include <iostream>
 #include <limits.h>
 
+bool SameName(std::string a, std::string b)
+{
+    if (caseInsensitive)
+    {
+	strlower(a);
+	strlower(b);
+    }
+    return a == b;
+}
+
 std::string GetPath(const std::string& filename)
 {
     char                   path[PATH_MAX];
diff --git a/utils.h b/utils.h
index e23b3a1..076f74e 100644
--- a/utils.h
+++ b/utils.h
@@ -9,6 +9,9 @@ inline void strlower(std::string& str)
     std::transform(str.begin(), str.end(), str.begin(), ::tolower);
 }
 
+// Do these two spellings denote the same name?
+bool SameName(std::string a, std::string b);
+
 std::string GetPath(const std::string& fileName);
 
 [[noreturn]] void InternalCompilerError(const char* file, int line, const std::string& msg);
-- 
2.43.0


From 4389f4a95f37b019d0f73cc6f91b611b80a5ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 33/53] fix: pack and unpack take any variable, and index types
 narrower than integer

---
 builtin.cpp | 59 +++++++++++++++++------------------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index a4b39a3..b007376 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1028,7 +1028,7 @@ namespace Builtin
 		{
 		    return ErrorType::WrongArgType;
 		}
-		if (!llvm::isa<VariableExprAST>(args[0]) || !llvm::isa<VariableExprAST>(args[2]))
+		if (!llvm::isa<AddressableAST>(args[0]) || !llvm::isa<AddressableAST>(args[2]))
 		{
 		    return ErrorType::WrongArgType;
 		}
@@ -1042,28 +1042,22 @@ namespace Builtin
 	return ErrorType::WrongArgType;
     }
 
+    // Address of the element of array that start denotes.
+    static llvm::Value* ElementAddress(llvm::IRBuilder<>& builder, ExprAST* array, ExprAST* start)
+    {
+	auto         ty = llvm::dyn_cast<Types::ArrayDecl>(array->Type());
+	llvm::Value* index = RangeReduceAST(start, ty->Ranges()[0]).CodeGen();
+	llvm::Value* base = llvm::dyn_cast<AddressableAST>(array)->Address();
+	return builder.CreateGEP(ty->SubType()->LlvmType(), base, index, "elem");
+    }
+
     llvm::Value* FunctionPack::CodeGen(llvm::IRBuilder<>& builder)
     {
 	// Pack(X, n, Y) -> copy X to Y, starting at offset n
-	auto* var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
-	auto* var2 = llvm::dyn_cast<VariableExprAST>(args[2]);
-
-	llvm::Value* start = args[1]->CodeGen();
-	auto*        ty0 = llvm::dyn_cast<Types::ArrayDecl>(args[0]->Type());
-	auto         r = llvm::dyn_cast<Types::RangeDecl>(ty0->Ranges()[0]);
-	if (r->Start())
-	{
-	    start = builder.CreateSub(start, MakeConstant(r->Start(), args[1]->Type()));
-	}
-
-	llvm::Value* pA = var0->Address();
-	llvm::Value* pB = var2->Address();
-
-	llvm::Type*  ptrTy = ty0->SubType()->LlvmType();
-	llvm::Value* src = builder.CreateGEP(ptrTy, pA, start, "dest");
-	llvm::Align  dest_align{ std::max(AlignOfType(pB->getType()), MIN_ALIGN) };
-	llvm::Align  src_align{ std::max(AlignOfType(src->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(pB, dest_align, src, src_align, args[2]->Type()->Size());
+	llvm::Value* src = ElementAddress(builder, args[0], args[1]);
+	llvm::Value* dest = llvm::dyn_cast<AddressableAST>(args[2])->Address();
+	llvm::Align  align{ 1 }; // Elements may be as small as a byte
+	return builder.CreateMemCpy(dest, align, src, align, args[2]->Type()->Size());
     }
 
     // Unpack(apacked, a, start);
@@ -1083,7 +1077,7 @@ namespace Builtin
 		{
 		    return ErrorType::WrongArgType;
 		}
-		if (!llvm::isa<VariableExprAST>(args[0]) || !llvm::isa<VariableExprAST>(args[1]))
+		if (!llvm::isa<AddressableAST>(args[0]) || !llvm::isa<AddressableAST>(args[1]))
 		{
 		    return ErrorType::WrongArgType;
 		}
@@ -1100,25 +1094,10 @@ namespace Builtin
     llvm::Value* FunctionUnpack::CodeGen(llvm::IRBuilder<>& builder)
     {
 	// Unpack(X, Y, n) -> copy X to Y, starting at offset n
-	auto var0 = llvm::dyn_cast<VariableExprAST>(args[0]);
-	auto var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
-
-	llvm::Value* start = args[2]->CodeGen();
-	auto         ty1 = llvm::dyn_cast<Types::ArrayDecl>(args[1]->Type());
-	auto         r = llvm::dyn_cast<Types::RangeDecl>(ty1->Ranges()[0]);
-	if (r->Start())
-	{
-	    start = builder.CreateSub(start, MakeConstant(r->Start(), args[2]->Type()));
-	}
-
-	llvm::Value* pA = var0->Address();
-	llvm::Value* pB = var1->Address();
-
-	llvm::Type*  ptrTy = ty1->SubType()->LlvmType();
-	llvm::Value* dest = builder.CreateGEP(ptrTy, pB, start, "dest");
-	llvm::Align  dest_align{ std::max(AlignOfType(dest->getType()), MIN_ALIGN) };
-	llvm::Align  src_align{ std::max(AlignOfType(pA->getType()), MIN_ALIGN) };
-	return builder.CreateMemCpy(dest, dest_align, pA, src_align, args[0]->Type()->Size());
+	llvm::Value* dest = ElementAddress(builder, args[1], args[2]);
+	llvm::Value* src = llvm::dyn_cast<AddressableAST>(args[0])->Address();
+	llvm::Align  align{ 1 }; // Elements may be as small as a byte
+	return builder.CreateMemCpy(dest, align, src, align, args[0]->Type()->Size());
     }
 
     ErrorType FunctionVal::Semantics()
-- 
2.43.0


From 3b60fde0d960acc72cd823e2f84a9161d9360c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 34/53] fix: the bounds of a conformant array are names of
 their own

They may have the name of a type or constant that is visible.
---
 parser.cpp | 77 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index a95fc35..b0003b0 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <deque>
 #include <iostream>
 #include <limits>
 #include <sstream>
@@ -63,6 +64,7 @@ public:
     const Token&     CurrentToken() const;
     void             NextToken(const char* file, int line);
     Token::TokenType PeekToken(const char* file, int line);
+    Token::TokenType PeekAhead(const char* file, int line, size_t count);
 
     // Simple expression parsing
     ExprAST* ParseExpression();
@@ -139,6 +141,7 @@ public:
 
     Types::RangeBaseDecl* ParseRange(Types::TypeDecl*& type, Token::TokenType endToken,
                                      Token::TokenType altToken, Types::Schema* schema = 0);
+    Types::RangeBaseDecl* ParseConformantRange(Types::TypeDecl*& type);
     Types::RangeBaseDecl* ParseRangeOrTypeRange(Types::TypeDecl*& type, Token::TokenType endToken,
                                                 Token::TokenType altToken, Types::Schema* schema = 0);
     Types::Schema*        ParseSchemaVars();
@@ -207,8 +210,7 @@ public:
 private:
     Lexer                     lexer;
     Token                     curToken;
-    Token                     nextToken;
-    bool                      nextTokenValid;
+    std::deque<Token>         nextTokens;
     std::string               moduleName;
     int                       errCnt;
     int                       funcLevel;
@@ -321,10 +323,10 @@ const Token& Parser::CurrentToken() const
 
 void Parser::NextToken(const char* file, int line)
 {
-    if (nextTokenValid)
+    if (!nextTokens.empty())
     {
-	curToken = nextToken;
-	nextTokenValid = false;
+	curToken = nextTokens.front();
+	nextTokens.pop_front();
     }
     else
     {
@@ -339,21 +341,23 @@ void Parser::NextToken(const char* file, int line)
 
 Token::TokenType Parser::PeekToken(const char* file, int line)
 {
-    if (nextTokenValid)
-    {
-	return nextToken.GetToken();
-    }
-
-    nextTokenValid = true;
-    nextToken = lexer.GetToken();
+    return PeekAhead(file, line, 1);
+}
 
-    if (verbosity > 1)
+Token::TokenType Parser::PeekAhead(const char* file, int line, size_t count)
+{
+    while (nextTokens.size() < count)
     {
-	std::cerr << "peeking: ";
-	std::cerr << file << ": " << line << ": ";
-	nextToken.dump(std::cerr);
+	nextTokens.push_back(lexer.GetToken());
+
+	if (verbosity > 1)
+	{
+	    std::cerr << "peeking: ";
+	    std::cerr << file << ": " << line << ": ";
+	    nextTokens.back().dump(std::cerr);
+	}
     }
-    return nextToken.GetToken();
+    return nextTokens[count - 1].GetToken();
 }
 
 std::string Parser::GetIdentifier(const char* file, int line, ExpectConsuming consumption)
@@ -427,6 +431,7 @@ bool Parser::AcceptToken(Token::TokenType type, const char* file, int line)
 
 #define NextToken() NextToken(__FILE__, __LINE__)
 #define PeekToken() PeekToken(__FILE__, __LINE__)
+#define PeekAhead(count) PeekAhead(__FILE__, __LINE__, count)
 #define ExpectSemicolonOrEnd() ExpectSemicolonOrEnd(__FILE__, __LINE__)
 #define Expect(t, e) Expect(t, e, __FILE__, __LINE__)
 #define AssertToken(t) AssertToken(t, __FILE__, __LINE__)
@@ -748,19 +753,6 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 	    return 0;
 	}
 	std::string highName = GetIdentifier(ExpectConsume);
-	if (endToken != Token::Semicolon)
-	{
-	    AcceptToken(Token::Colon);
-	    if (!Expect(Token::Identifier, NoExpectConsume))
-	    {
-		return 0;
-	    }
-	    if ((type = GetTypeDecl(GetIdentifier(NoExpectConsume))))
-	    {
-		NextToken();
-		return new Types::DynRangeDecl(lowName, highName, type);
-	    }
-	}
 	if (schema)
 	{
 	    if (const VarDef* lowDef = schema->FindVar(lowName))
@@ -807,9 +799,32 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
     return 0;
 }
 
+// Parse the index of a conformant array: name .. name: typename
+Types::RangeBaseDecl* Parser::ParseConformantRange(Types::TypeDecl*& type)
+{
+    std::string lowName = GetIdentifier(ExpectConsume);
+    AssertToken(Token::DotDot);
+    std::string highName = GetIdentifier(ExpectConsume);
+    AssertToken(Token::Colon);
+    std::string typeName = GetIdentifier(ExpectConsume);
+    type = GetTypeDecl(typeName);
+    if (!type)
+    {
+	return Error("Identifier '" + typeName + "' does not name a type");
+    }
+    return new Types::DynRangeDecl(lowName, highName, type);
+}
+
 Types::RangeBaseDecl* Parser::ParseRangeOrTypeRange(Types::TypeDecl*& type, Token::TokenType endToken,
                                                     Token::TokenType altToken, Types::Schema* schema)
 {
+    // The bounds of a conformant array are new names, whatever else has the name.
+    if (endToken != Token::Semicolon && CurrentToken().GetToken() == Token::Identifier &&
+        PeekAhead(1) == Token::DotDot && PeekAhead(2) == Token::Identifier && PeekAhead(3) == Token::Colon)
+    {
+	return ParseConformantRange(type);
+    }
+
     std::string name = GetIdentifier(NoExpectConsume);
     if ((type = GetTypeDecl(name)))
     {
@@ -4779,7 +4794,7 @@ ExprAST* Parser::Parse(ParserType type)
     return ParseUnit(type);
 }
 
-Parser::Parser(Source& source) : lexer(source), nextTokenValid(false), errCnt(0), funcLevel(0), uniqueCount(0)
+Parser::Parser(Source& source) : lexer(source), errCnt(0), funcLevel(0), uniqueCount(0)
 {
     const llvm::fltSemantics& sem = llvm::APFloat::IEEEdouble();
     double                    maxReal = llvm::APFloat::getLargest(sem).convertToDouble();
-- 
2.43.0


From 94f079c2e6e3af242b866a6e350982032872ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 35/53] fix: a program may declare a predefined name

Also local variables called input or output no longer take the place of the standard files.
---
 parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index b0003b0..5efa101 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -3301,7 +3301,9 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 // needs a name of its own.
 std::string Parser::UniqueName(const std::string& name)
 {
-    if (funcLevel > 1 && llvm::isa_and_nonnull<VarDef>(nameStack.Find(name)))
+    // The standard files are used without being named.
+    bool standard = funcLevel > 0 && (SameName(name, "input") || SameName(name, "output"));
+    if (standard || (funcLevel > 1 && llvm::isa_and_nonnull<VarDef>(nameStack.Find(name))))
     {
 	return name + "." + std::to_string(++uniqueCount);
     }
@@ -4659,6 +4661,13 @@ void Parser::ParseImports()
 
 ExprAST* Parser::ParseUnit(ParserType type)
 {
+    // What a program declares may have the name of something predefined, other than its standard files.
+    const NamedObject* input = nameStack.Find("input");
+    const NamedObject* output = nameStack.Find("output");
+    NameWrapper        wrapper(nameStack);
+    nameStack.Add(input);
+    nameStack.Add(output);
+
     const Location unitloc = CurrentToken().Loc();
     if (!ParseProgram(type) || !Expect(Token::Semicolon, ExpectConsume))
     {
-- 
2.43.0


From abb036876da83421f85e15324523de60109b90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 36/53] fix: a boolean constant keeps its value where true or
 false is redeclared

---
 parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 5efa101..01410bb 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -627,8 +627,8 @@ Token Parser::TranslateToken(const Token& token)
     {
 	if (const Constants::ConstDecl* cd = GetConstDecl(token.GetIdentName()))
 	{
-	    if (!llvm::isa<Constants::CompoundConstDecl, Constants::SetConstDecl, Constants::EnumConstDecl>(
-	            cd))
+	    if (!llvm::isa<Constants::CompoundConstDecl, Constants::SetConstDecl, Constants::EnumConstDecl,
+	                   Constants::BoolConstDecl>(cd))
 	    {
 		return cd->Translate();
 	    }
@@ -2888,6 +2888,10 @@ ExprAST* Parser::ParseCallOrVariableExpr(const Token& token)
 	{
 	    return new IntegerExprAST(token.Loc(), ed->Value(), ed->Type());
 	}
+	if (auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd))
+	{
+	    return new IntegerExprAST(token.Loc(), bd->Value(), bd->Type());
+	}
 	if (auto sd = llvm::dyn_cast<Constants::SetConstDecl>(cd))
 	{
 	    return CreateSetExprFromSetConst(sd);
-- 
2.43.0


From ca3861a11419472075c8840e3bd71a395502244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 37/53] fix: a forward declaration is completed by a definition
 in the same scope only

A nested function or a procedural parameter may have the name of an outer forward declaration,
and one that is never defined is an error.
---
 parser.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 01410bb..015dbc9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -52,7 +52,8 @@ public:
     enum class NamePolicy
     {
 	Unnamed,
-	Named
+	Named,
+	Parameter
     };
 
     Parser(Source& source);
@@ -110,6 +111,7 @@ public:
     VarDeclAST*   ParseVarDecls();
     std::string   UniqueName(const std::string& name);
     BlockAST*     ParseBlock(Location& endLoc);
+    bool          CheckForwards();
     FunctionAST*  ParseDefinition(int level);
     PrototypeAST* ParsePrototype(NamePolicy nmPolicy);
     bool          ParseProgram(ParserType type);
@@ -3412,7 +3414,7 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
     // Consume "function" or "procedure"
     NextToken();
     std::string funcName = "$$unnamed";
-    if (nmPolicy == NamePolicy::Named)
+    if (nmPolicy != NamePolicy::Unnamed)
     {
 	// Get function name.
 	funcName = GetIdentifier(ExpectConsume);
@@ -3455,8 +3457,9 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 		return Error("Expected object name");
 	    }
 	}
-	// See if it's a "forward declaration"?
-	if (const NamedObject* def = nameStack.Find(funcName))
+	// See if it's a "forward declaration"? That is one in the same scope, and not what a parameter names.
+	const NamedObject* def = nameStack.FindTopLevel(funcName);
+	if (def && nmPolicy == NamePolicy::Named)
 	{
 	    const auto fnDef = llvm::dyn_cast_or_null<const FuncDef>(def);
 	    if (fnDef && fnDef->Proto() && fnDef->Proto()->IsForward())
@@ -3482,7 +3485,7 @@ PrototypeAST* Parser::ParsePrototype(Parser::NamePolicy nmPolicy)
 	{
 	    if (CurrentToken().GetToken() == Token::Function || CurrentToken().GetToken() == Token::Procedure)
 	    {
-		if (PrototypeAST* proto = ParsePrototype(NamePolicy::Named))
+		if (PrototypeAST* proto = ParsePrototype(NamePolicy::Parameter))
 		{
 		    Types::TypeDecl* type = new Types::FuncPtrDecl(proto);
 		    VarDef           v(proto->Name(), type);
@@ -3664,6 +3667,21 @@ BlockAST* Parser::ParseBlock(Location& endLoc)
     return new BlockAST(loc, v);
 }
 
+// What is declared as forward has to be defined in the same block.
+bool Parser::CheckForwards()
+{
+    bool good = true;
+    for (auto i : nameStack.GetLevel())
+    {
+	const auto fnDef = llvm::dyn_cast<FuncDef>(i.second);
+	if (fnDef && fnDef->Proto() && fnDef->Proto()->IsForward())
+	{
+	    good = ErrorT(bool, "No definition of '" + fnDef->Name() + "', which is declared as forward");
+	}
+    }
+    return good;
+}
+
 FunctionAST* Parser::ParseDefinition(int level)
 {
     TRACE();
@@ -3822,6 +3840,10 @@ FunctionAST* Parser::ParseDefinition(int level)
 	    Location endLoc;
 	    ICE_IF(body, "Multiple body declarations for function?");
 
+	    if (!CheckForwards())
+	    {
+		return 0;
+	    }
 	    if (!(body = ParseBlock(endLoc)) || !Expect(Token::Semicolon, ExpectConsume))
 	    {
 		return 0;
@@ -4749,7 +4771,11 @@ ExprAST* Parser::ParseUnit(ParserType type)
 	{
 	    const Location loc = CurrentToken().Loc();
 	    Location       endLoc;
-	    BlockAST*      body = ParseBlock(endLoc);
+	    if (!CheckForwards())
+	    {
+		return 0;
+	    }
+	    BlockAST* body = ParseBlock(endLoc);
 	    if (!body)
 	    {
 		return 0;
-- 
2.43.0


From 4d88d31a6902937a4e7f7b608231429b329bef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 38/53] fix: a byte 255 in a text file was taken for its end

---
 runtime/read.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index 1853b4a..cf8cbb9 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -19,7 +19,7 @@ static int read_chunk_text(struct FileEntry* f)
 	if (f->readPos != f->bufferSize)
 	{
 	    f->readAhead = 1;
-	    return f->fileData->buffer[f->readPos++];
+	    return (unsigned char)f->fileData->buffer[f->readPos++];
 	}
 
 	int n;
@@ -30,7 +30,7 @@ static int read_chunk_text(struct FileEntry* f)
 		f->bufferSize = n;
 		f->readAhead = 1;
 		f->readPos = 1;
-		return *file->buffer;
+		return (unsigned char)*file->buffer;
 	    }
 	}
     }
@@ -38,7 +38,7 @@ static int read_chunk_text(struct FileEntry* f)
 }
 
 /* Make a local function so it can inline */
-static int __get_text(File* file)
+static int get_text(File* file)
 {
     struct FileEntry* f = &files[file->handle];
     int               ch = read_chunk_text(f);
@@ -59,7 +59,7 @@ int __eof(File* file)
 {
     if (!files[file->handle].readAhead)
     {
-	if (!__get_text(file))
+	if (!get_text(file))
 	{
 	    return 1;
 	}
@@ -71,7 +71,7 @@ int __eoln(File* file)
 {
     if (!files[file->handle].readAhead)
     {
-	if (!__get_text(file))
+	if (!get_text(file))
 	{
 	    return 1;
 	}
@@ -100,12 +100,12 @@ struct interface
 
 static int file_current(struct interface* intf)
 {
-    return *intf->file->buffer;
+    return (unsigned char)*intf->file->buffer;
 }
 
 static int file_get_text(struct interface* intf)
 {
-    return __get_text(intf->file);
+    return get_text(intf->file);
 }
 
 static int file_eof(struct interface* intf)
@@ -122,7 +122,7 @@ static void file_preread(struct interface* intf)
 {
     if (!files[intf->file->handle].readAhead)
     {
-	__get_text(intf->file);
+	get_text(intf->file);
     }
 }
 
@@ -449,14 +449,14 @@ void __read_nl(File* file)
 {
     if (!files[file->handle].readAhead)
     {
-	if (!__get_text(file))
+	if (!get_text(file))
 	{
 	    return;
 	}
     }
     while (*file->buffer != '\n')
     {
-	if (!__get_text(file))
+	if (!get_text(file))
 	    break;
     }
     files[file->handle].readAhead = 0;
-- 
2.43.0


From 612da592f130b7051cc069ed6d11378260e651b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 39/53] fix: get, put and the buffer variable of text files

get skipped what read had buffered, put wrote 1024 bytes, and the buffer variable
was stale after readln.
---
 expr.cpp          | 12 +++++-------
 runtime/assign.c  |  1 +
 runtime/fileio.c  |  6 +++++-
 runtime/getput.c  |  7 ++-----
 runtime/read.c    | 25 +++++++++++++++++++++++++
 runtime/runtime.h |  2 ++
 6 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 476574e..3cc64fc 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -625,14 +625,12 @@ void FilePointerExprAST::DoDump() const
 llvm::Value* FilePointerExprAST::Address()
 {
     TRACE();
-    auto vptr = llvm::dyn_cast<VariableExprAST>(pointer);
+    auto vptr = llvm::dyn_cast<AddressableAST>(pointer);
     ICE_IF(!vptr, "Expected variable expression!");
-    llvm::Value* v = vptr->Address();
-    llvm::Type*  fileTy = pointer->Type()->LlvmType();
-    llvm::Type*  ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
-    v = builder.CreateGEP(fileTy, v, { MakeIntegerConstant(0), MakeIntegerConstant(Types::FileDecl::Buffer) },
-                          "bufptr");
-    return builder.CreateLoad(ptrTy, v, "buffer");
+    llvm::Value*         v = vptr->Address();
+    llvm::Type*          ptrTy = llvm::PointerType::getUnqual(Type()->LlvmType());
+    llvm::FunctionCallee f = GetFunction(ptrTy, { v->getType() }, "__fileptr");
+    return builder.CreateCall(f, { v }, "buffer");
 }
 
 void FilePointerExprAST::accept(ASTVisitor& v)
diff --git a/runtime/assign.c b/runtime/assign.c
index d97ce5a..d1750aa 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -21,6 +21,7 @@ void InitFiles()
     SetupFile(&output, 1, 1);
 
     files[input.handle].file = stdin;
+    files[input.handle].reading = 1;
     files[output.handle].file = stdout;
 }
 
diff --git a/runtime/fileio.c b/runtime/fileio.c
index db62af3..4746cb6 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -40,6 +40,7 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 	files[f->handle].file = fopen(files[f->handle].name, mode);
 	if (files[f->handle].file)
 	{
+	    files[f->handle].reading = *mode == 'r';
 	    return;
 	}
     }
@@ -49,7 +50,10 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 void __reset(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "r");
-    __get(f);
+    if (!isText)
+    {
+	__get(f);
+    }
 }
 
 void __rewrite(File* f, int recSize, int isText)
diff --git a/runtime/getput.c b/runtime/getput.c
index 2259758..111ec11 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -12,7 +12,7 @@ void __put(File* file)
     {
 	f = &files[file->handle];
     }
-    fwrite(file->buffer, file->recordSize, 1, f->file);
+    fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, f->file);
 }
 
 int __get(File* file)
@@ -24,10 +24,7 @@ int __get(File* file)
     }
     if (file->isText)
     {
-	int ch = fgetc(f->file);
-	*file->buffer = ch;
-	f->readAhead = (ch != EOF);
-	return f->readAhead;
+	return __get_char(file);
     }
     else
     {
diff --git a/runtime/read.c b/runtime/read.c
index cf8cbb9..98ab03c 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -57,6 +57,10 @@ static int get_text(File* file)
  */
 int __eof(File* file)
 {
+    if (!file->isText)
+    {
+	return !files[file->handle].readAhead;
+    }
     if (!files[file->handle].readAhead)
     {
 	if (!get_text(file))
@@ -79,6 +83,27 @@ int __eoln(File* file)
     return *file->buffer == '\n';
 }
 
+/* Move to the next character, the one before may not have been looked at. */
+int __get_char(File* file)
+{
+    if (!files[file->handle].readAhead && !get_text(file))
+    {
+	return 0;
+    }
+    return get_text(file);
+}
+
+/* The buffer variable holds the current character or component when reading. */
+char* __fileptr(File* file)
+{
+    struct FileEntry* f = &files[file->handle];
+    if (file->isText && f->reading && !f->readAhead)
+    {
+	get_text(file);
+    }
+    return file->buffer;
+}
+
 struct interface
 {
     int (*fngetnext)(struct interface* intf);
diff --git a/runtime/runtime.h b/runtime/runtime.h
index eea64f8..bc218e8 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -32,6 +32,7 @@ struct FileEntry
     FILE* file;
     char* name;
     int   inUse;
+    int   reading;
     int   readAhead;
     int   readPos;
     int   bufferSize;
@@ -111,6 +112,7 @@ static inline FILE* getFile(File* f)
 }
 
 int  __get(File* file);
+int  __get_char(File* file);
 void __put(File* file);
 int  __eof(File* file);
 int  __eoln(File* file);
-- 
2.43.0


From d05fda00f612ea3180b9965dd14bf432c2d24a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 40/53] fix: reading strings and character arrays stays within
 the variable and its source

Longer lines were written past the end of the variable, readstr went on with what is
stored after the end of its source, and a boolean at the end of a file was not recognised.
---
 expr.cpp       | 14 ++++++++++++++
 runtime/read.c | 52 ++++++++++++++++++++++++++------------------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 3cc64fc..74d48ae 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3223,10 +3223,12 @@ static llvm::FunctionCallee CreateReadFunc(Types::TypeDecl* ty, llvm::Type* fty,
     else if (llvm::isa<Types::StringDecl>(ty))
     {
 	suffix = "str";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else if (IsCharArray(ty))
     {
 	suffix = "chars";
+	argTypes.push_back(Types::Get<Types::IntegerDecl>()->LlvmType());
     }
     else
     {
@@ -3286,6 +3288,18 @@ llvm::Value* ReadAST::CodeGen()
 	}
 
 	argsV.push_back(v);
+	if (isText)
+	{
+	    // No more than fits is read.
+	    if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+	    {
+		argsV.push_back(MakeIntegerConstant(sd->Capacity()));
+	    }
+	    else if (IsCharArray(ty))
+	    {
+		argsV.push_back(MakeIntegerConstant(ty->Size()));
+	    }
+	}
 
 	ICE_IF(!fn, "Failed to generate function");
 	v = builder.CreateCall(fn, argsV, "");
diff --git a/runtime/read.c b/runtime/read.c
index 98ab03c..ddfa5ce 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -161,24 +161,23 @@ static void initFile(File* file, struct interface* intf)
     intf->fnpreread = file_preread;
 }
 
+static int str_eof(struct interface* intf)
+{
+    return (intf->strpos == intf->str->len);
+}
+
 static int str_current(struct interface* intf)
 {
-    return intf->str->str[intf->strpos];
+    return str_eof(intf) ? '\n' : intf->str->str[intf->strpos];
 }
 
 static int str_get_text(struct interface* intf)
 {
-    if (intf->strpos == intf->str->len)
+    if (!str_eof(intf))
     {
-	return EOF;
+	intf->strpos++;
     }
-    intf->strpos++;
-    return str_current(intf);
-}
-
-static int str_eof(struct interface* intf)
-{
-    return (intf->strpos == intf->str->len);
+    return !str_eof(intf);
 }
 
 // Nothing to do here.
@@ -487,14 +486,14 @@ void __read_nl(File* file)
     files[file->handle].readAhead = 0;
 }
 
-static void readstr(struct interface* intf, String* v)
+static void readstr(struct interface* intf, String* v, int size)
 {
-    char   buffer[256];
-    size_t count = 0;
+    char buffer[MaxStringLen];
+    int  count = 0;
 
     intf->fnpreread(intf);
 
-    while (!intf->fneoln(intf) && count < sizeof(buffer))
+    while (!intf->fneoln(intf) && count < size)
     {
 	buffer[count++] = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -506,7 +505,7 @@ static void readstr(struct interface* intf, String* v)
     memcpy(v->str, buffer, count);
 }
 
-void __read_str(File* file, String* v)
+void __read_str(File* file, String* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -516,21 +515,21 @@ void __read_str(File* file, String* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readstr(&intf, v);
+    readstr(&intf, v, size);
 }
 
-void __read_S_str(String* str, String* v)
+void __read_S_str(String* str, String* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readstr(intf, v);
+    readstr(intf, v, size);
 }
 
-static void readchars(struct interface* intf, char* v)
+static void readchars(struct interface* intf, char* v, int size)
 {
     intf->fnpreread(intf);
-    while (intf->fncurrent(intf) != '\n')
+    for (int count = 0; !intf->fneoln(intf) && count < size; count++)
     {
 	*v++ = intf->fncurrent(intf);
 	if (!intf->fngetnext(intf))
@@ -540,7 +539,7 @@ static void readchars(struct interface* intf, char* v)
     }
 }
 
-void __read_chars(File* file, char* v)
+void __read_chars(File* file, char* v, int size)
 {
     if (file->handle >= MaxPascalFiles)
     {
@@ -549,15 +548,15 @@ void __read_chars(File* file, char* v)
     struct interface intf;
     initFile(file, &intf);
 
-    readchars(&intf, v);
+    readchars(&intf, v, size);
 }
 
-void __read_S_chars(String* str, char* v)
+void __read_S_chars(String* str, char* v, int size)
 {
     struct interface* intf = findInterface(str);
     assert(intf && "Expected to find an interface");
 
-    readchars(intf, v);
+    readchars(intf, v, size);
 }
 
 static void upstr(char* s)
@@ -585,7 +584,10 @@ static void readbool(struct interface* intf, int* b)
 	    break;
 	}
 	str[count++] = ch;
-	intf->fngetnext(intf);
+	if (!intf->fngetnext(intf))
+	{
+	    break;
+	}
     }
     str[count] = 0;
     upstr(str);
-- 
2.43.0


From 8a71880d1f4ef0e7ef487a9ca542e103664ba715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 41/53] fix: a real that is read is the nearest one, as in a
 literal

---
 runtime/read.c | 102 ++++++++++++++++++-------------------------------
 1 file changed, 38 insertions(+), 64 deletions(-)

diff --git a/runtime/read.c b/runtime/read.c
index ddfa5ce..9bbc969 100644
--- a/runtime/read.c
+++ b/runtime/read.c
@@ -280,36 +280,6 @@ static int get_sign(struct interface* intf)
     return 1;
 }
 
-// Turn an exponent into a multiplier value.
-static double exponent_to_multi(int exponent)
-{
-    double m = 1.0;
-    int    oneover = 0;
-    if (exponent < 0)
-    {
-	oneover = 1;
-	exponent = -exponent;
-    }
-    while (exponent > 0)
-    {
-	if (exponent & 1)
-	{
-	    m *= 10.0;
-	    exponent--;
-	}
-	else
-	{
-	    m *= 100.0;
-	    exponent -= 2;
-	}
-    }
-    if (oneover)
-    {
-	return 1.0 / m;
-    }
-    return m;
-}
-
 static void readint64(struct interface* intf, int64_t* v)
 {
     int64_t n = 0;
@@ -394,58 +364,62 @@ void __read_S_chr(String* str, char* v)
     readchar(intf, v);
 }
 
-static void readreal(struct interface* intf, double* v)
+/* The characters of a number that is read. */
+struct NumberText
 {
-    double n = 0;
-    double divisor = 1.0;
-    double multiplicand = 1.0;
-    int    exponent = 0;
+    char*  text;
+    size_t len;
+    size_t size;
+};
 
-    intf->fnpreread(intf);
-    skip_spaces(intf);
-    int sign = get_sign(intf);
+static void add_char(struct NumberText* num, char ch)
+{
+    if (num->len + 1 >= num->size)
+    {
+	num->size = num->size * 2 + 64;
+	num->text = realloc(num->text, num->size);
+    }
+    num->text[num->len++] = ch;
+    num->text[num->len] = 0;
+}
 
+static void add_digits(struct NumberText* num, struct interface* intf)
+{
     while (isdigit(intf->fncurrent(intf)))
     {
-	n *= 10.0;
-	n += (intf->fncurrent(intf)) - '0';
+	add_char(num, intf->fncurrent(intf));
 	if (!intf->fngetnext(intf))
 	{
 	    break;
 	}
     }
+}
+
+static void readreal(struct interface* intf, double* v)
+{
+    struct NumberText num = {};
+
+    intf->fnpreread(intf);
+    skip_spaces(intf);
+    add_char(&num, (get_sign(intf) < 0) ? '-' : '+');
+    add_char(&num, '0');
+    add_digits(&num, intf);
     if (intf->fncurrent(intf) == '.')
     {
 	intf->fngetnext(intf);
-	while (isdigit(intf->fncurrent(intf)))
-	{
-	    n *= 10.0;
-	    n += (intf->fncurrent(intf)) - '0';
-	    divisor *= 10.0;
-	    if (!intf->fngetnext(intf))
-	    {
-		break;
-	    }
-	}
+	add_char(&num, '.');
+	add_digits(&num, intf);
     }
     if (intf->fncurrent(intf) == 'e' || intf->fncurrent(intf) == 'E')
     {
 	intf->fngetnext(intf);
-	int expsign = get_sign(intf);
-	while (isdigit(intf->fncurrent(intf)) && !intf->fneoln(intf))
-	{
-	    exponent *= 10;
-	    exponent += (intf->fncurrent(intf)) - '0';
-	    if (!intf->fngetnext(intf))
-	    {
-		break;
-	    }
-	}
-	exponent *= expsign;
-	multiplicand = exponent_to_multi(exponent);
+	add_char(&num, 'e');
+	add_char(&num, (get_sign(intf) < 0) ? '-' : '+');
+	add_char(&num, '0');
+	add_digits(&num, intf);
     }
-    n = n * sign / divisor * multiplicand;
-    *v = n;
+    *v = strtod(num.text, NULL);
+    free(num.text);
 }
 
 void __read_real(File* file, double* v)
-- 
2.43.0


From be32b919a9ece0b56912f83fdf843fb30c8c07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 42/53] fix: what files are associated with

assign took no other name than a literal, used up a slot for each call, and unnamed files shared
one temporary file; local files started with whatever was on the stack.
---
 builtin.cpp       |  5 +++--
 expr.cpp          | 24 +++++++++++++++++++++++
 runtime/assign.c  | 50 ++++++++++++++++++++++++++++++++++++++++++++---
 runtime/fileio.c  |  4 ++--
 runtime/runtime.h |  2 ++
 5 files changed, 78 insertions(+), 7 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index b007376..30658c7 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1232,11 +1232,12 @@ namespace Builtin
 	auto         fvar = llvm::dyn_cast<AddressableAST>(args[0]);
 	llvm::Value* faddr = fvar->Address();
 
-	llvm::Value*             filename = args[1]->CodeGen();
+	llvm::Value*             filename = MakeStringFromExpr(args[1], args[1]->Type());
 	llvm::Type*              ty = filename->getType();
 	std::vector<llvm::Type*> argTypes = { faddr->getType(), ty };
 
-	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes, "__assign");
+	llvm::FunctionCallee f = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), argTypes,
+	                                     "__assign_str");
 
 	return builder.CreateCall(f, { faddr, filename });
     }
diff --git a/expr.cpp b/expr.cpp
index 74d48ae..613270f 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3397,6 +3397,25 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     return v;
 }
 
+static bool ContainsFile(const Types::TypeDecl* ty)
+{
+    if (auto ad = llvm::dyn_cast<Types::ArrayDecl>(ty))
+    {
+	return ContainsFile(ad->SubType());
+    }
+    if (auto fc = llvm::dyn_cast<Types::FieldCollection>(ty))
+    {
+	for (int i = 0; i < fc->FieldCount(); i++)
+	{
+	    if (ContainsFile(fc->GetElement(i)->SubType()))
+	    {
+		return true;
+	    }
+	}
+    }
+    return llvm::isa<Types::FileDecl>(ty);
+}
+
 llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 {
     llvm::Value* v = CreateAlloca(func->Proto()->LlvmFunction(), var);
@@ -3413,6 +3432,11 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
 	llvm::Value* init = iv->CodeGen();
 	builder.CreateStore(init, v);
     }
+    else if (ContainsFile(var.Type()))
+    {
+	// A file is not associated with anything at first.
+	builder.CreateStore(llvm::Constant::getNullValue(var.Type()->LlvmType()), v);
+    }
     if (debugInfo)
     {
 	DebugInfo& di = GetDebugInfo();
diff --git a/runtime/assign.c b/runtime/assign.c
index d1750aa..bfc9c39 100644
--- a/runtime/assign.c
+++ b/runtime/assign.c
@@ -46,6 +46,14 @@ void SetupFile(File* f, int recSize, int isText)
 void __assign(File* f, char* name)
 {
     int i;
+    // A file that has a name already gets a new one.
+    for (i = 0; i < MaxPascalFiles && files[i].fileData != f; i++)
+	;
+    if (i < MaxPascalFiles)
+    {
+	f->handle = i;
+	ReleaseFile(f);
+    }
     for (i = 0; i < MaxPascalFiles && files[i].inUse; i++)
 	;
     if (i == MaxPascalFiles)
@@ -61,6 +69,42 @@ void __assign(File* f, char* name)
     strcpy(files[i].name, name);
 }
 
+void __assign_str(File* f, String* name)
+{
+    char buffer[MaxStringLen + 1];
+    memcpy(buffer, name->str, name->len);
+    buffer[name->len] = 0;
+    __assign(f, buffer);
+}
+
+/*******************************************
+ * The file has a name
+ *******************************************
+ */
+int IsAssigned(File* f)
+{
+    return f->handle >= 0 && f->handle < MaxPascalFiles && files[f->handle].fileData == f;
+}
+
+/*******************************************
+ * Forget the name of a file
+ *******************************************
+ */
+void ReleaseFile(File* f)
+{
+    struct FileEntry* fe = &files[f->handle];
+    if (fe->file)
+    {
+	fclose(fe->file);
+    }
+    free(fe->name);
+    fe->file = NULL;
+    fe->name = NULL;
+    fe->fileData = NULL;
+    fe->inUse = 0;
+    f->handle = 0;
+}
+
 /*******************************************
  * File assign for unnamed file
  *******************************************
@@ -70,12 +114,12 @@ void __assign_unnamed(File* f)
     char       name[] = "lacsap_tmp_file_NNNNNN";
     static int n = 0;
     n++;
-    n %= MaxPascalFiles;
     size_t pos = strlen(name) - 1;
+    int    digits = n;
     for (int i = 0; i < 6; i++)
     {
-	name[pos] = '0' + (n % 10);
-	n /= 10;
+	name[pos] = '0' + (digits % 10);
+	digits /= 10;
 	pos--;
     }
     __assign(f, name);
diff --git a/runtime/fileio.c b/runtime/fileio.c
index 4746cb6..ce0b7b7 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -15,7 +15,7 @@ void FileError(const char* op)
 
 void __close(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (IsAssigned(f) && files[f->handle].file != NULL)
     {
 	fclose(files[f->handle].file);
 	files[f->handle].file = NULL;
@@ -26,7 +26,7 @@ void __close(File* f)
 
 static void OpenFile(File* f, int recSize, int isText, const char* mode)
 {
-    if (!f->handle)
+    if (!IsAssigned(f))
     {
 	__assign_unnamed(f);
     }
diff --git a/runtime/runtime.h b/runtime/runtime.h
index bc218e8..76d1763 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -97,6 +97,8 @@ extern File output;
 void InitFiles();
 void SetupFile(File* f, int recSize, int isText);
 void FileError(const char* op);
+int  IsAssigned(File* f);
+void ReleaseFile(File* f);
 
 /*******************************************
  * File Basics, low level I/O.
-- 
2.43.0


From bacf4fceb93c028dfd421d214702f4fdccc2ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 43/53] fix: seekread, seekwrite, seekupdate, position,
 lastposition and empty

The arguments of fseek were swapped, the component that is read ahead was counted,
and a file could not be both read and written.
---
 runtime/fileio.c | 10 ++++--
 runtime/getput.c | 13 +++++++-
 runtime/seek.c   | 83 ++++++++++++++++++++----------------------------
 3 files changed, 55 insertions(+), 51 deletions(-)

diff --git a/runtime/fileio.c b/runtime/fileio.c
index ce0b7b7..c8c9911 100644
--- a/runtime/fileio.c
+++ b/runtime/fileio.c
@@ -38,6 +38,11 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 	    __close(f);
 	}
 	files[f->handle].file = fopen(files[f->handle].name, mode);
+	if (!files[f->handle].file && *mode == 'r')
+	{
+	    // It may be one that cannot be written.
+	    files[f->handle].file = fopen(files[f->handle].name, "r");
+	}
 	if (files[f->handle].file)
 	{
 	    files[f->handle].reading = *mode == 'r';
@@ -49,7 +54,7 @@ static void OpenFile(File* f, int recSize, int isText, const char* mode)
 
 void __reset(File* f, int recSize, int isText)
 {
-    OpenFile(f, recSize, isText, "r");
+    OpenFile(f, recSize, isText, isText ? "r" : "r+");
     if (!isText)
     {
 	__get(f);
@@ -58,10 +63,11 @@ void __reset(File* f, int recSize, int isText)
 
 void __rewrite(File* f, int recSize, int isText)
 {
-    OpenFile(f, recSize, isText, "w");
+    OpenFile(f, recSize, isText, isText ? "w" : "w+");
 }
 
 void __append(File* f, int recSize, int isText)
 {
     OpenFile(f, recSize, isText, "a");
+    fseek(files[f->handle].file, 0, SEEK_END);
 }
diff --git a/runtime/getput.c b/runtime/getput.c
index 111ec11..11fae3f 100644
--- a/runtime/getput.c
+++ b/runtime/getput.c
@@ -12,7 +12,18 @@ void __put(File* file)
     {
 	f = &files[file->handle];
     }
-    fwrite(file->buffer, file->isText ? 1 : file->recordSize, 1, f->file);
+    size_t size = file->isText ? 1 : file->recordSize;
+    if (f->reading)
+    {
+	// Replace the component that was read.
+	fseek(f->file, f->readAhead ? -(long)size : 0, SEEK_CUR);
+    }
+    fwrite(file->buffer, size, 1, f->file);
+    if (f->reading)
+    {
+	fseek(f->file, 0, SEEK_CUR);
+	__get(file);
+    }
 }
 
 int __get(File* file)
diff --git a/runtime/seek.c b/runtime/seek.c
index 6f8cfda..7485bd5 100644
--- a/runtime/seek.c
+++ b/runtime/seek.c
@@ -8,74 +8,61 @@
  *******************************************
  */
 
-void __seekwrite(File* f, uint64_t n)
+static FILE* OpenedFile(File* f, const char* op)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
+    if (!IsAssigned(f) || files[f->handle].file == NULL)
     {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
+	FileError(op);
     }
-    FileError("seekwrite");
+    return files[f->handle].file;
+}
+
+/* Write from component n on */
+void __seekwrite(File* f, uint64_t n)
+{
+    fseek(OpenedFile(f, "seekwrite"), n * f->recordSize, SEEK_SET);
+    files[f->handle].reading = 0;
+    files[f->handle].readAhead = 0;
 }
 
+/* Read from component n on */
 void __seekread(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekread");
+    fseek(OpenedFile(f, "seekread"), n * f->recordSize, SEEK_SET);
+    files[f->handle].reading = 1;
+    __get(f);
 }
 
+/* Read or replace from component n on */
 void __seekupdate(File* f, uint64_t n)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	fseek(files[f->handle].file, SEEK_SET, n * f->recordSize);
-	return;
-    }
-    FileError("seekupdate");
+    fseek(OpenedFile(f, "seekupdate"), n * f->recordSize, SEEK_SET);
+    files[f->handle].reading = 1;
+    __get(f);
+}
+
+static int64_t FileLength(FILE* file)
+{
+    long current = ftell(file);
+    fseek(file, 0, SEEK_END);
+    long len = ftell(file);
+    fseek(file, current, SEEK_SET);
+    return len;
 }
 
 /* Note this is not thread-safe, but we don't have threads in Lacsap at present! */
 bool __empty(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return (len == 0);
-    }
-    FileError("empty");
-    return false;
+    return FileLength(OpenedFile(f, "empty")) == 0;
 }
 
-long __position(File* f)
+int64_t __position(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	long current = ftell(files[f->handle].file);
-	return current / f->recordSize;
-    }
-    FileError("position");
-    return 0;
+    // The component in the buffer variable is the current one.
+    return ftell(OpenedFile(f, "position")) / f->recordSize - files[f->handle].readAhead;
 }
 
-long __lastposition(File* f)
+int64_t __lastposition(File* f)
 {
-    if (files[f->handle].inUse && files[f->handle].file != NULL)
-    {
-	FILE* file = files[f->handle].file;
-	long  current = ftell(file);
-	fseek(file, SEEK_END, 0);
-	long len = ftell(file);
-	fseek(file, SEEK_SET, current);
-	return len / f->recordSize;
-    }
-    FileError("lastposition");
-    return 0;
+    return FileLength(OpenedFile(f, "lastposition")) / f->recordSize;
 }
-- 
2.43.0


From d1265b1999dc2998bd344001b0fe45c49ba2ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:24 +0000
Subject: [PATCH 44/53] fix: what is written to a typed file is converted to
 its component type

---
 expr.cpp      |  6 ++++++
 expr.h        |  1 +
 semantics.cpp | 12 +++++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/expr.cpp b/expr.cpp
index 613270f..b153509 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3145,6 +3145,12 @@ llvm::Value* WriteAST::CodeGen()
 	}
 	else
 	{
+	    if (component)
+	    {
+		component->CodeGen();
+		fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy }, "__put");
+		return builder.CreateCall(fn, argsV, "");
+	    }
 	    v = MakeAddressable(arg.expr);
 	    argsV.push_back(builder.CreateBitCast(v, voidPtrTy));
 	    fn = GetFunction(Types::Get<Types::VoidDecl>()->LlvmType(), { dstTy, voidPtrTy }, "__write_bin");
diff --git a/expr.h b/expr.h
index 9a62fea..4e7fe54 100644
--- a/expr.h
+++ b/expr.h
@@ -796,6 +796,7 @@ private:
     AddressableAST*       dest;
     std::vector<WriteArg> args;
     WriteKind             kind;
+    ExprAST*              component = 0;
 };
 
 class ReadAST : public ExprAST
diff --git a/semantics.cpp b/semantics.cpp
index abf62f2..1aa9897 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1110,10 +1110,20 @@ void TypeCheckVisitor::Check<WriteAST>(WriteAST* w)
 	{
 	    ExprAST* arg = w->args[0].expr;
 	    auto     fd = llvm::dyn_cast<Types::FileDecl>(w->dest->Type());
-	    if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+	    bool     isSet = fd && llvm::isa<Types::SetDecl>(fd->SubType()) && llvm::isa<Types::SetDecl>(arg->Type());
+	    if (!fd || (!isSet && !fd->SubType()->AssignableType(arg->Type())))
 	    {
 		Error(arg, "Write argument should match elements of the file");
 	    }
+	    else if (isSet || fd->SubType()->Type() != arg->Type()->Type() ||
+	             fd->SubType()->Size() != arg->Type()->Size())
+	    {
+		// The value has to be converted, as it is by an assignment to the buffer variable.
+		auto buffer = new FilePointerExprAST(w->Loc(), w->dest, fd->SubType());
+		auto a = new AssignExprAST(w->Loc(), buffer, arg);
+		Check<AssignExprAST>(a);
+		w->component = a;
+	    }
 	}
     }
 }
-- 
2.43.0


From 559f8fc0fe449d3e90bfd08acc46ff826d2f7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 45/53] fix: a subrange may be the last thing in a record

---
 parser.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 015dbc9..d349819 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -1211,21 +1211,16 @@ const Constants::ConstDecl* Parser::ParseConstExpr(const TerminatorList& termina
     const Location              loc = CurrentToken().Loc();
     const Constants::ConstDecl* cd;
 
-    do
+    if (!(cd = ParseConstTerm(loc)))
     {
-	if (!(cd = ParseConstTerm(loc)))
-	{
-	    return 0;
-	}
+	return 0;
+    }
 
-	if (!IsOneOf(CurrentToken().GetToken(), terminators))
-	{
-	    if (!(cd = ParseConstRHS(0, cd)))
-	    {
-		return 0;
-	    }
-	}
-    } while (!IsOneOf(CurrentToken().GetToken(), terminators));
+    if (!IsOneOf(CurrentToken().GetToken(), terminators))
+    {
+	// What follows the expression is up to the caller, a subrange can be the last thing in a record.
+	cd = ParseConstRHS(0, cd);
+    }
     return cd;
 }
 
-- 
2.43.0


From e14a426e732083d8f0df4c65bb9222a7cc42bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 46/53] fix: val takes any variable, and leaves the string and
 what follows it alone

---
 builtin.cpp   |  8 ++++----
 runtime/val.c | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 30658c7..383dcb6 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -1110,7 +1110,7 @@ namespace Builtin
 	{
 	    return ErrorType::WrongArgType;
 	}
-	if (!llvm::isa<VariableExprAST>(args[1]))
+	if (!llvm::isa<AddressableAST>(args[1]))
 	{
 	    return ErrorType::WrongArgType;
 	}
@@ -1124,13 +1124,13 @@ namespace Builtin
     llvm::Value* FunctionVal::CodeGen(llvm::IRBuilder<>& builder)
     {
 	llvm::Value* str = MakeStringFromExpr(args[0], args[0]->Type());
-	auto         var1 = llvm::dyn_cast<VariableExprAST>(args[1]);
+	auto         var1 = llvm::dyn_cast<AddressableAST>(args[1]);
 	std::string  name = "__Val_";
-	if (llvm::isa<Types::IntegerDecl>(var1->Type()))
+	if (var1->Type()->Type() == Types::TypeDecl::TK_Integer)
 	{
 	    name += "int";
 	}
-	else if (llvm::isa<Types::Int64Decl>(var1->Type()))
+	else if (var1->Type()->Type() == Types::TypeDecl::TK_LongInt)
 	{
 	    name += "long";
 	}
diff --git a/runtime/val.c b/runtime/val.c
index 722e794..9d05dc6 100644
--- a/runtime/val.c
+++ b/runtime/val.c
@@ -2,21 +2,29 @@
 #include <inttypes.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
+
+static const char* Text(const String* s, char* buffer)
+{
+    memcpy(buffer, s->str, s->len);
+    buffer[s->len] = 0;
+    return buffer;
+}
 
 void __Val_int(String* s, int* res)
 {
-    s->str[s->len] = 0;
-    *res = strtol((const char*)&s->str, NULL, 0);
+    char buffer[MaxStringLen + 1];
+    *res = strtol(Text(s, buffer), NULL, 0);
 }
 
 void __Val_long(String* s, int64_t* res)
 {
-    s->str[s->len] = 0;
-    *res = strtoll((const char*)&s->str, NULL, 0);
+    char buffer[MaxStringLen + 1];
+    *res = strtoll(Text(s, buffer), NULL, 0);
 }
 
 void __Val_real(String* s, double* res)
 {
-    s->str[s->len] = 0;
-    *res = strtod((const char*)&s->str, NULL);
+    char buffer[MaxStringLen + 1];
+    *res = strtod(Text(s, buffer), NULL);
 }
-- 
2.43.0


From fe8a3f97e202628be25228e8b6aa94a63436e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 47/53] fix: what is read from a typed file is converted to the
 type of the variable

---
 expr.cpp      |  6 ++++++
 expr.h        |  1 +
 semantics.cpp | 12 ++++++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index b153509..0274d3e 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -3277,6 +3277,12 @@ llvm::Value* ReadAST::CodeGen()
 	std::vector<llvm::Value*> argsV = { sc };
 	auto                      vexpr = llvm::dyn_cast<AddressableAST>(arg);
 	ICE_IF(!vexpr, "Argument for read/readln should be a variable");
+	if (component)
+	{
+	    component->CodeGen();
+	    llvm::FunctionCallee get = GetFunction(Types::Get<Types::IntegerDecl>()->LlvmType(), { srcTy }, "__get");
+	    return builder.CreateCall(get, argsV);
+	}
 
 	Types::TypeDecl* ty = vexpr->Type();
 	v = vexpr->Address();
diff --git a/expr.h b/expr.h
index 4e7fe54..90500de 100644
--- a/expr.h
+++ b/expr.h
@@ -824,6 +824,7 @@ private:
     AddressableAST*       src;
     std::vector<ExprAST*> args;
     ReadKind              kind;
+    ExprAST*              component = 0;
 };
 
 class LabelExprAST : public ExprAST
diff --git a/semantics.cpp b/semantics.cpp
index 1aa9897..c54c1ce 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -1022,17 +1022,25 @@ void TypeCheckVisitor::Check<ReadAST>(ReadAST* r)
 	else
 	{
 	    ExprAST* arg = r->args[0];
-	    if (!llvm::isa<VariableExprAST>(arg))
+	    if (!llvm::isa<AddressableAST>(arg))
 	    {
 		Error(arg, "Invalid argument for read - must be a variable-expression");
 	    }
 	    else
 	    {
 		auto fd = llvm::dyn_cast<Types::FileDecl>(r->src->Type());
-		if (!fd || !fd->SubType()->AssignableType(arg->Type()))
+		if (!fd || !arg->Type()->AssignableType(fd->SubType()))
 		{
 		    Error(arg, "Read argument should match elements of the file");
 		}
+		else if (fd->SubType()->Type() != arg->Type()->Type() || fd->SubType()->Size() != arg->Type()->Size())
+		{
+		    // The value has to be converted, as it is by an assignment from the buffer variable.
+		    auto buffer = new FilePointerExprAST(r->Loc(), r->src, fd->SubType());
+		    auto a = new AssignExprAST(r->Loc(), arg, buffer);
+		    Check<AssignExprAST>(a);
+		    r->component = a;
+		}
 	    }
 	}
     }
-- 
2.43.0


From 8ea028574860e0ccf2b51545dfde24d12498f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 48/53] fix: constant expressions follow the run-time rules

---
 constants.cpp | 241 ++++++++++++++++++++++++++++++--------------------
 parser.cpp    | 110 +++++++++++++----------
 2 files changed, 206 insertions(+), 145 deletions(-)

diff --git a/constants.cpp b/constants.cpp
index 93010a9..66f709a 100644
--- a/constants.cpp
+++ b/constants.cpp
@@ -44,7 +44,7 @@ namespace Constants
     template<>
     Token CharConstDecl::Translate() const
     {
-	return Token(Token::Char, loc, static_cast<uint64_t>(value));
+	return Token(Token::Char, loc, static_cast<uint64_t>(static_cast<unsigned char>(value)));
     }
     template<>
     void CharConstDecl::dump() const
@@ -119,12 +119,12 @@ namespace Constants
 	{
 	    if (rhsI)
 	    {
-		rValue = rhsI->Value();
+		rValue = static_cast<int64_t>(rhsI->Value());
 		ok = true;
 	    }
 	    if (lhsI)
 	    {
-		lValue = lhsI->Value();
+		lValue = static_cast<int64_t>(lhsI->Value());
 		ok = true;
 	    }
 	}
@@ -138,7 +138,6 @@ namespace Constants
 	const auto rhsS = llvm::dyn_cast<StringConstDecl>(rhs);
 	const auto lhsC = llvm::dyn_cast<CharConstDecl>(lhs);
 	const auto rhsC = llvm::dyn_cast<CharConstDecl>(rhs);
-	bool       ok = lhsS && rhsS;
 	if (lhsS)
 	{
 	    lValue = lhsS->Value();
@@ -147,20 +146,15 @@ namespace Constants
 	{
 	    rValue = rhsS->Value();
 	}
-	if (lhsS || rhsS)
+	if (lhsC)
 	{
-	    if (lhsC)
-	    {
-		lValue = lhsC->Value();
-		ok = true;
-	    }
-	    if (rhsC)
-	    {
-		rValue = rhsC->Value();
-		ok = true;
-	    }
+	    lValue = lhsC->Value();
 	}
-	return ok;
+	if (rhsC)
+	{
+	    rValue = rhsC->Value();
+	}
+	return (lhsS || lhsC) && (rhsS || rhsC);
     }
 
     ConstDecl* ErrorConst(const std::string& msg)
@@ -241,12 +235,23 @@ namespace Constants
 	return v;
     }
 
+    static bool IsZero(const ConstDecl& c)
+    {
+	auto ic = llvm::dyn_cast<IntConstDecl>(&c);
+	return ic && ic->Value() == 0;
+    }
+
     ConstDecl* operator/(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	ConstDecl* v = DoRealMath(lhs, rhs, [](double lv, double rv) { return lv / rv; });
 	if (!v)
 	{
-	    v = DoIntegerMath(lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv / rv; });
+	    if (IsZero(rhs))
+	    {
+		return ErrorConst("Division by zero");
+	    }
+	    v = DoIntegerMath(lhs, rhs,
+	                      [](int64_t lv, int64_t rv) { return rv == -1 ? -(uint64_t)lv : lv / rv; });
 	}
 	if (!v)
 	{
@@ -268,24 +273,52 @@ namespace Constants
 
     ConstDecl* operator%(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (IsZero(rhs))
+	{
+	    return ErrorConst("Division by zero");
+	}
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv % rv; }, "mod");
+	    lhs, rhs, [](int64_t lv, int64_t rv) { return rv == -1 ? 0 : lv % rv; }, "mod");
+    }
+
+    template<typename FN>
+    static ConstDecl* DoBooleanMath(const ConstDecl& lhs, const ConstDecl& rhs, FN fn)
+    {
+	const auto lhsB = llvm::dyn_cast<BoolConstDecl>(&lhs);
+	const auto rhsB = llvm::dyn_cast<BoolConstDecl>(&rhs);
+	if (lhsB && rhsB)
+	{
+	    return new BoolConstDecl(Location(), fn(lhsB->Value(), rhsB->Value()));
+	}
+	return 0;
     }
 
     ConstDecl* operator&(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (ConstDecl* v = DoBooleanMath(lhs, rhs, [](char lv, char rv) { return lv & rv; }))
+	{
+	    return v;
+	}
 	return IntegerOrErrorMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv & rv; }, "and");
     }
 
     ConstDecl* operator|(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (ConstDecl* v = DoBooleanMath(lhs, rhs, [](char lv, char rv) { return lv | rv; }))
+	{
+	    return v;
+	}
 	return IntegerOrErrorMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv | rv; }, "or");
     }
 
     ConstDecl* operator^(const ConstDecl& lhs, const ConstDecl& rhs)
     {
+	if (ConstDecl* v = DoBooleanMath(lhs, rhs, [](char lv, char rv) { return lv ^ rv; }))
+	{
+	    return v;
+	}
 	return IntegerOrErrorMath(
 	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv ^ rv; }, "xor");
     }
@@ -299,7 +332,14 @@ namespace Constants
     ConstDecl* operator>>(const ConstDecl& lhs, const ConstDecl& rhs)
     {
 	return IntegerOrErrorMath(
-	    lhs, rhs, [](uint64_t lv, uint64_t rv) { return lv >> rv; }, "shr");
+	    lhs, rhs,
+	    [](uint64_t lv, uint64_t rv)
+	    {
+		// As for variables, what is shifted is 32 bits wide unless the value needs more.
+		bool isInt = (int64_t)lv == (int32_t)lv;
+		return (isInt ? (uint32_t)lv : lv) >> rv;
+	    },
+	    "shr");
     }
 
     template<typename T>
@@ -309,6 +349,14 @@ namespace Constants
 	{
 	    return new IntConstDecl(intConst->Loc(), func(intConst->Value()));
 	}
+	if (auto charConst = llvm::dyn_cast<CharConstDecl>(cd))
+	{
+	    return new CharConstDecl(charConst->Loc(), func((unsigned char)charConst->Value()));
+	}
+	if (auto boolConst = llvm::dyn_cast<BoolConstDecl>(cd))
+	{
+	    return new BoolConstDecl(boolConst->Loc(), func(boolConst->Value()));
+	}
 	if (auto enumConst = llvm::dyn_cast<EnumConstDecl>(cd))
 	{
 	    return new EnumConstDecl(enumConst->Type(), enumConst->Loc(), func(enumConst->Value()));
@@ -317,24 +365,45 @@ namespace Constants
     }
 
     template<typename T>
-    static T PowerToInt(T x, int y)
+    static T PowerToInt(T x, uint64_t y)
     {
-	if (y == 0)
+	T res = 1;
+	for (; y; y /= 2)
 	{
-	    return 1;
+	    if (y & 1)
+	    {
+		res *= x;
+	    }
+	    x *= x;
 	}
-	if (y < 0)
+	return res;
+    }
+
+    static bool GetReal(const ConstDecl* c, double& value)
+    {
+	if (auto rc = llvm::dyn_cast<RealConstDecl>(c))
 	{
-	    return 1 / PowerToInt(x, -y);
+	    value = rc->Value();
+	    return true;
 	}
-	ICE_IF(y <= 0, "Expect y > 0");
-	T res = 1;
-	do
+	if (auto ic = llvm::dyn_cast<IntConstDecl>(c))
 	{
-	    res *= x;
-	    y--;
-	} while (y > 0);
-	return res;
+	    value = static_cast<int64_t>(ic->Value());
+	    return true;
+	}
+	return false;
+    }
+
+    // A function of one real or integer value.
+    template<typename FN>
+    static const ConstDecl* RealFunction(const ConstDecl* c, FN fn)
+    {
+	double v;
+	if (!GetReal(c, v))
+	{
+	    return 0;
+	}
+	return new RealConstDecl(c->Loc(), fn(v));
     }
 
     ConstDecl* Pow(const ConstDecl& lhs, const ConstDecl& rhs)
@@ -344,28 +413,39 @@ namespace Constants
 	{
 	    return 0;
 	}
-	int y = intConst->Value();
+	int64_t y = intConst->Value();
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(&lhs))
 	{
-	    int x = ic->Value();
+	    uint64_t x = ic->Value();
+	    if (y < 0)
+	    {
+		if (x == 0)
+		{
+		    return ErrorConst("Division by zero");
+		}
+		// The reciprocal of anything but 1 and -1 is truncated to zero.
+		return new IntConstDecl(ic->Loc(), x + 1 <= 2 ? PowerToInt(x, y & 1) : 0);
+	    }
 	    return new IntConstDecl(ic->Loc(), PowerToInt(x, y));
 	}
 
 	if (auto rc = llvm::dyn_cast<RealConstDecl>(&lhs))
 	{
 	    double x = rc->Value();
-	    return new RealConstDecl(rc->Loc(), PowerToInt(x, y));
+	    return new RealConstDecl(rc->Loc(), y < 0 ? 1 / PowerToInt(x, -(uint64_t)y) : PowerToInt(x, y));
 	}
 	return 0;
     }
 
     ConstDecl* Power(const ConstDecl& lhs, const ConstDecl& rhs)
     {
-	const RealConstDecl* l = llvm::cast<RealConstDecl>(ToRealConstDecl(&lhs));
-	const RealConstDecl* r = llvm::cast<RealConstDecl>(ToRealConstDecl(&rhs));
-	double               x = l->Value();
-	double               y = r->Value();
-	return new RealConstDecl(l->Loc(), exp(log(x) * y));
+	double x;
+	double y;
+	if (!GetReal(&lhs, x) || !GetReal(&rhs, y))
+	{
+	    return ErrorConst("Invalid operand for **");
+	}
+	return new RealConstDecl(lhs.Loc(), pow(x, y));
     }
 
     using ConstArgs = std::vector<const ConstDecl*>;
@@ -422,76 +502,41 @@ namespace Constants
 	      }
 	      return UpdateValueSameType(args[0], [n](int64_t v) { return v - n; });
 	  } },
-	{ "ord", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
-	  { return new IntConstDecl(args[0]->Loc(), ToInt(args[0])); } },
-	{ "length", 1, 1,
-	  [](const ConstArgs& args) -> const ConstDecl*
-	  {
-	      if (auto strConst = llvm::dyn_cast<StringConstDecl>(args[0]))
-	      {
-	          return new IntConstDecl(strConst->Loc(), strConst->Value().length());
-	      }
-	      return 0;
-	  } },
-	{ "sin", 1, 1,
+	{ "ord", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (!IsIntegral(args[0]->Type()))
 	      {
-	          return new RealConstDecl(rc->Loc(), sin(rc->Value()));
+	          return 0;
 	      }
-	      return 0;
-	  } },
-	{ "cos", 1, 1,
-	  [](const ConstArgs& args) -> const ConstDecl*
-	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
-	      {
-	          return new RealConstDecl(rc->Loc(), cos(rc->Value()));
-	      }
-	      return 0;
+	      return new IntConstDecl(args[0]->Loc(), ToInt(args[0]));
 	  } },
-	{ "ln", 1, 1,
-	  [](const ConstArgs& args) -> const ConstDecl*
-	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
-	      {
-	          // Yes, we want log here, log10 is Pascal type log
-	          return new RealConstDecl(rc->Loc(), log(rc->Value()));
-	      }
-	      return 0;
-	  } },
-	{ "exp", 1, 1,
-	  [](const ConstArgs& args) -> const ConstDecl*
-	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
-	      {
-	          return new RealConstDecl(rc->Loc(), exp(rc->Value()));
-	      }
-	      return 0;
-	  } },
-	{ "frac", 1, 1,
+	{ "length", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (auto strConst = llvm::dyn_cast<StringConstDecl>(args[0]))
 	      {
-	          double intpart;
-	          return new RealConstDecl(rc->Loc(), modf(rc->Value(), &intpart));
+	          return new IntConstDecl(strConst->Loc(), strConst->Value().length());
 	      }
-	      return 0;
-	  } },
-
-	{ "int", 1, 1,
-	  [](const ConstArgs& args) -> const ConstDecl*
-	  {
-	      if (auto rc = llvm::dyn_cast<RealConstDecl>(args[0]))
+	      if (llvm::isa<CharConstDecl>(args[0]))
 	      {
-	          double r = rc->Value();
-	          return new RealConstDecl(rc->Loc(), copysign(floor(std::abs(r)), r));
+	          return new IntConstDecl(args[0]->Loc(), 1);
 	      }
 	      return 0;
 	  } },
-
+	{ "sin", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  { return RealFunction(args[0], [](double v) { return sin(v); }); } },
+	{ "cos", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  { return RealFunction(args[0], [](double v) { return cos(v); }); } },
+	{ "ln", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  // Yes, we want log here, log10 is Pascal type log
+	  { return RealFunction(args[0], [](double v) { return log(v); }); } },
+	{ "exp", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  { return RealFunction(args[0], [](double v) { return exp(v); }); } },
+	{ "frac", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  { return RealFunction(args[0], [](double v) { return v - trunc(v); }); } },
+	{ "int", 1, 1, [](const ConstArgs& args) -> const ConstDecl*
+	  { return RealFunction(args[0], [](double v) { return trunc(v); }); } },
 	{ "trunc", 1, 1,
 	  [](const ConstArgs& args) -> const ConstDecl*
 	  {
@@ -566,7 +611,7 @@ namespace Constants
 	}
 	if (auto cc = llvm::dyn_cast<CharConstDecl>(c))
 	{
-	    return cc->Value();
+	    return (unsigned char)cc->Value();
 	}
 	if (auto ce = llvm::dyn_cast<EnumConstDecl>(c))
 	{
@@ -589,7 +634,7 @@ namespace Constants
 	}
 	if (auto ic = llvm::dyn_cast<IntConstDecl>(c))
 	{
-	    return new RealConstDecl(ic->Loc(), ic->Value());
+	    return new RealConstDecl(ic->Loc(), static_cast<int64_t>(ic->Value()));
 	}
 	return ErrorConst("Expected an integer constant");
     }
diff --git a/parser.cpp b/parser.cpp
index d349819..cb8af8e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -728,14 +728,13 @@ Types::RangeBaseDecl* Parser::ParseRange(Types::TypeDecl*& type, Token::TokenTyp
 
 	if (const Constants::ConstDecl* endC = ParseConstExpr({ endToken, altToken }))
 	{
-	    int64_t start = Constants::ToInt(startC);
-	    int64_t end = Constants::ToInt(endC);
-
 	    type = startC->Type();
 	    if (!IsIntegral(type) || type != endC->Type())
 	    {
 		return Error("Expected two values of the same ordinal type");
 	    }
+	    int64_t start = Constants::ToInt(startC);
+	    int64_t end = Constants::ToInt(endC);
 	    if (llvm::isa<Types::IntegerDecl>(type) && (start != (int32_t)start || end != (int32_t)end))
 	    {
 		type = Types::Get<Types::Int64Decl>();
@@ -865,6 +864,7 @@ Constants::ConstDecl* Parser::ParseConstEval(const Constants::ConstDecl* lhs, co
 	{
 	    return *tmpL / *tmpR;
 	}
+	return 0;
     }
 
     case Token::Div:
@@ -924,15 +924,20 @@ const Constants::ConstDecl* Parser::ParseConstFunction(const std::string& name)
 	for (;;)
 	{
 	    const Constants::ConstDecl* cd = ParseConstExpr({ Token::Comma, Token::RightParen });
+	    if (!cd)
+	    {
+		return 0;
+	    }
 	    args.push_back(cd);
 	    if (AcceptToken(Token::Comma))
 	    {
 		continue;
 	    }
-	    else if (Expect(Token::RightParen, ExpectConsume))
+	    if (!Expect(Token::RightParen, ExpectConsume))
 	    {
-		return Constants::EvalFunction(name, args);
+		return 0;
 	    }
+	    return Constants::EvalFunction(name, args);
 	}
     }
     return 0;
@@ -954,8 +959,9 @@ public:
 		        { Token::Comma, Token::RightSquare }))
 		{
 		    Types::TypeDecl* type = cd->Type();
-		    if (type != cde->Type())
+		    if (type != cde->Type() || !IsIntegral(type))
 		    {
+			parser.Error("Expected two values of the same ordinal type");
 			return false;
 		    }
 		    int64_t start = Constants::ToInt(cd);
@@ -997,6 +1003,10 @@ const Constants::ConstDecl* Parser::ParseConstSetExpr()
 		}
 	    }
 	}
+	if (type && !IsIntegral(type))
+	{
+	    return Error("Expected set elements of an ordinal type");
+	}
 	return new Constants::SetConstDecl(loc, new Types::SetDecl(0, type), ccs.Values());
     }
     return 0;
@@ -1007,12 +1017,10 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     TRACE();
     Token::TokenType            unaryToken = Token::Unknown;
     const Constants::ConstDecl* cd = 0;
-    int                         mul = 1;
 
     switch (CurrentToken().GetToken())
     {
     case Token::Minus:
-	mul = -1;
     case Token::Plus:
     case Token::Not:
 	unaryToken = CurrentToken().GetToken();
@@ -1049,12 +1057,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 
     case Token::Integer:
     {
-	uint64_t v = CurrentToken().GetIntVal();
-	if (unaryToken == Token::Not)
-	{
-	    v = ~v;
-	}
-	cd = new Constants::IntConstDecl(loc, v * mul);
+	cd = new Constants::IntConstDecl(loc, CurrentToken().GetIntVal());
 	NextToken();
 	break;
     }
@@ -1064,7 +1067,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    return Error("Unary 'not' is not allowed for real constants");
 	}
-	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal() * mul);
+	cd = new Constants::RealConstDecl(loc, CurrentToken().GetRealVal());
 	NextToken();
 	break;
 
@@ -1099,7 +1102,7 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    fc->EnsureSized();
 	}
-	cd = new Constants::IntConstDecl(loc, ty->Size() * mul);
+	cd = new Constants::IntConstDecl(loc, ty->Size());
 	break;
     }
 
@@ -1113,16 +1116,11 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	{
 	    if (llvm::isa<Types::BoolDecl>(ed->Type()))
 	    {
-		uint64_t v = ed->Value();
-		if (unaryToken == Token::Not)
-		{
-		    v = !v;
-		}
-		else if (unaryToken != Token::Unknown)
+		if (unaryToken != Token::Unknown && unaryToken != Token::Not)
 		{
 		    return Error("Unary + or - not allowed for bool constants");
 		}
-		cd = new Constants::BoolConstDecl(loc, v);
+		cd = new Constants::BoolConstDecl(loc, ed->Value());
 	    }
 	    else
 	    {
@@ -1140,28 +1138,11 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
 	    {
 		return 0;
 	    }
-	    if (llvm::isa<Constants::BoolConstDecl>(cd) && unaryToken == Token::Not)
+	    if (unaryToken == Token::Minus &&
+	        !llvm::isa<Constants::RealConstDecl, Constants::IntConstDecl>(cd))
 	    {
-		const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
-		cd = new Constants::BoolConstDecl(loc, !bd->Value());
-	    }
-
-	    if (mul == -1)
-	    {
-		if (const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd))
-		{
-		    ;
-		    cd = new Constants::RealConstDecl(loc, -rd->Value());
-		}
-		else if (const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd))
-		{
-		    cd = new Constants::IntConstDecl(loc, -id->Value());
-		}
-		else
-		{
-		    return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
-		                 " only integer and real types can be negated");
-		}
+		return Error("Can't negate the type of " + CurrentToken().GetIdentName() +
+		             " only integer and real types can be negated");
 	    }
 	    NextToken();
 	}
@@ -1171,7 +1152,35 @@ const Constants::ConstDecl* Parser::ParseConstTerm(const Location& loc)
     default:
 	return 0;
     }
-    return cd;
+    if (!cd || unaryToken == Token::Unknown)
+    {
+	return cd;
+    }
+
+    const auto id = llvm::dyn_cast<Constants::IntConstDecl>(cd);
+    const auto rd = llvm::dyn_cast<Constants::RealConstDecl>(cd);
+    const auto bd = llvm::dyn_cast<Constants::BoolConstDecl>(cd);
+    if (unaryToken == Token::Minus && id)
+    {
+	return new Constants::IntConstDecl(loc, -id->Value());
+    }
+    if (unaryToken == Token::Minus && rd)
+    {
+	return new Constants::RealConstDecl(loc, -rd->Value());
+    }
+    if (unaryToken == Token::Not && id)
+    {
+	return new Constants::IntConstDecl(loc, ~id->Value());
+    }
+    if (unaryToken == Token::Not && bd)
+    {
+	return new Constants::BoolConstDecl(loc, !bd->Value());
+    }
+    if (unaryToken == Token::Plus && (id || rd))
+    {
+	return cd;
+    }
+    return Error("Unary operator not allowed for this type of constant");
 }
 
 const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants::ConstDecl* lhs)
@@ -1202,7 +1211,10 @@ const Constants::ConstDecl* Parser::ParseConstRHS(int exprPrec, const Constants:
 		return 0;
 	    }
 	}
-	lhs = ParseConstEval(lhs, binOp, rhs);
+	if (!(lhs = ParseConstEval(lhs, binOp, rhs)))
+	{
+	    return Error("Invalid operation in constant expression");
+	}
     }
 }
 
@@ -2056,6 +2068,10 @@ Types::TypeDecl* Parser::ExpandSchema(Types::TypeDecl* ty)
     do
     {
 	const Constants::ConstDecl* c = ParseConstExpr({ Token::Comma, Token::RightParen });
+	if (!c || !IsIntegral(c->Type()))
+	{
+	    return Error("Expected an ordinal constant");
+	}
 	vals.push_back(ToInt(c));
 	AcceptToken(Token::Comma);
     } while (!AcceptToken(Token::RightParen));
@@ -3071,7 +3087,7 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
 	{
 	    if (auto ci = llvm::dyn_cast<Constants::IntConstDecl>(c))
 	    {
-		return new RealExprAST(loc, ci->Value());
+		return new RealExprAST(loc, static_cast<int64_t>(ci->Value()));
 	    }
 	    return Error("Real constant initializer from incompatible type");
 	}
-- 
2.43.0


From 1ad6dbc72d4502f177c7319fe9a8e0b9d436364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 49/53] fix: a subrange may start with a sign or not, a set
 constant may have an empty range

---
 parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index cb8af8e..b7ba715 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -966,6 +966,11 @@ public:
 		    }
 		    int64_t start = Constants::ToInt(cd);
 		    int64_t end = Constants::ToInt(cde);
+		    if (start > end)
+		    {
+			// No members at all.
+			return true;
+		    }
 		    cd = new Constants::RangeConstDecl(loc, type, Types::Range(start, end));
 		}
 		else
@@ -2136,6 +2141,8 @@ Types::TypeDecl* Parser::ParseType(const std::string& name, Forwarding maybeForw
     case Token::Integer:
     case Token::Char:
     case Token::Minus:
+    case Token::Plus:
+    case Token::Not:
     {
 	Types::TypeDecl* type = 0;
 	return ParseRange(type, Token::Semicolon, Token::Of, schema);
-- 
2.43.0


From 9fbc6d506f79dcf7b04b932a542f1034787b5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 50/53] fix: a character may be compared with a string literal
 on its right

---
 semantics.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/semantics.cpp b/semantics.cpp
index c54c1ce..45743af 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -594,7 +594,13 @@ void TypeCheckVisitor::Check<BinaryExprAST>(BinaryExprAST* b)
 	}
 	if (!ty)
 	{
-	    if ((ty = const_cast<Types::TypeDecl*>(lty->CompatibleType(rty))))
+	    ty = const_cast<Types::TypeDecl*>(lty->CompatibleType(rty));
+	    // A character may be compared with a string literal, in either order
+	    if (!ty && llvm::isa<Types::CharDecl>(lty) && llvm::isa<StringExprAST>(b->rhs))
+	    {
+		ty = rty;
+	    }
+	    if (ty)
 	    {
 		if (!IsCompound(ty))
 		{
-- 
2.43.0


From 7039c177d9e4981c7ddf97b8a06fec5698f52458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 51/53] fix: random is always less than one

---
 runtime/math.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtime/math.c b/runtime/math.c
index 077341c..f889c02 100644
--- a/runtime/math.c
+++ b/runtime/math.c
@@ -24,9 +24,8 @@ static unsigned urand()
  */
 double __random(void)
 {
-    uint64_t r = urand();
-    r &= UINT_MAX;
-    return r / (double)UINT_MAX;
+    /* Less than one, always */
+    return urand() / (UINT_MAX + 1.0);
 }
 
 int64_t __random_int(int64_t limit)
-- 
2.43.0


From fea61800da89ec0014cb4f87f318a7d1650dc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 52/53] fix: complex: re, im, abs, sqr of any expression, unary
 minus, comparison with a real

---
 builtin.cpp   |  9 +++------
 expr.cpp      | 11 ++++++++++-
 semantics.cpp |  5 ++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/builtin.cpp b/builtin.cpp
index 383dcb6..28733e7 100644
--- a/builtin.cpp
+++ b/builtin.cpp
@@ -585,8 +585,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 
 	    llvm::Value* re = builder.CreateLoad(ty, builder.CreateGEP(ty, a, zero, "re"));
@@ -640,8 +639,7 @@ namespace Builtin
 	{
 	    llvm::Constant* zero = MakeIntegerConstant(0);
 	    llvm::Constant* one = MakeIntegerConstant(1);
-	    auto            v = llvm::dyn_cast<AddressableAST>(args[0]);
-	    llvm::Value*    a = v->Address();
+	    llvm::Value*    a = MakeAddressable(args[0]);
 	    llvm::Type*     ty = Types::Get<Types::RealDecl>()->LlvmType();
 	    llvm::Type*     cplxTy = Types::Get<Types::ComplexDecl>()->LlvmType();
 
@@ -1812,8 +1810,7 @@ namespace Builtin
 
     llvm::Value* FunctionReIm::CodeGen(llvm::IRBuilder<>& builder)
     {
-	auto         cmplx = llvm::dyn_cast<AddressableAST>(args[0]);
-	llvm::Value* caddr = cmplx->Address();
+	llvm::Value* caddr = MakeAddressable(args[0]);
 	llvm::Type*  realTy = Types::Get<Types::RealDecl>()->LlvmType();
 
 	return builder.CreateLoad(realTy,
diff --git a/expr.cpp b/expr.cpp
index 0274d3e..809bfeb 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -1551,6 +1551,15 @@ llvm::Value* UnaryExprAST::CodeGen()
 	    return builder.CreateFNeg(r, "minus");
 	}
     }
+    if (llvm::isa<Types::ComplexDecl>(rhs->Type()) && oper.GetToken() == Token::Minus)
+    {
+	for (unsigned i = 0; i < 2; i++)
+	{
+	    llvm::Value* part = builder.CreateFNeg(builder.CreateExtractValue(r, i, "part"), "minus");
+	    r = builder.CreateInsertValue(r, part, i, "minus");
+	}
+	return r;
+    }
     return Error(this, "Unknown operation: " + oper.ToString());
 }
 
@@ -4197,7 +4206,7 @@ llvm::Value* TypeCastAST::Address()
 
 	if (IsIntegral(current))
 	{
-	    re = builder.CreateSIToFP(expr->CodeGen(), realTy, "tofp");
+	    re = builder.CreateSIToFP(re, realTy, "tofp");
 	}
 	llvm::Value* im = MakeRealConstant(0.0);
 
diff --git a/semantics.cpp b/semantics.cpp
index 45743af..39b1ddc 100644
--- a/semantics.cpp
+++ b/semantics.cpp
@@ -386,8 +386,11 @@ Types::TypeDecl* TypeCheckVisitor::BinaryExprType(BinaryExprAST* b)
 
     if (b->oper.IsCompare())
     {
-	if (llvm::isa<Types::ComplexDecl>(lty) && llvm::isa<Types::ComplexDecl>(rty))
+	if ((llvm::isa<Types::ComplexDecl>(lty) && IsNumeric(rty)) ||
+	    (llvm::isa<Types::ComplexDecl>(rty) && IsNumeric(lty)))
 	{
+	    b->lhs = Recast(b->lhs, Types::Get<Types::ComplexDecl>());
+	    b->rhs = Recast(b->rhs, Types::Get<Types::ComplexDecl>());
 	    if (b->oper.GetToken() != Token::Equal && b->oper.GetToken() != Token::NotEqual)
 	    {
 		Error(b, "Only = and <> comparison allowed for complex types");
-- 
2.43.0


From a3babc8054ad354b84c5c96d3872b2b7d960b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:18 +0000
Subject: [PATCH 53/53] fix: initial values of every type, in every place they
 may be given

---
 expr.cpp   | 163 ++++++++++++++++++++++++++++++++++++++++--------
 parser.cpp | 178 +++++++++++++++++++++++++++++++++++++++++++----------
 types.cpp  |   9 +--
 types.h    |   5 ++
 4 files changed, 288 insertions(+), 67 deletions(-)

diff --git a/expr.cpp b/expr.cpp
index 809bfeb..3b62bde 100644
--- a/expr.cpp
+++ b/expr.cpp
@@ -210,6 +210,39 @@ llvm::AllocaInst* CreateTempAlloca(Types::TypeDecl* ty)
     return CreateNamedAlloca(fn, ty, "tmp");
 }
 
+// A constant that has an address
+static llvm::Value* ConstantInMemory(llvm::Constant* c)
+{
+    static std::map<llvm::Constant*, llvm::GlobalVariable*> constants;
+    llvm::GlobalVariable*&                                  gv = constants[c];
+    if (!gv)
+    {
+	llvm::Type*             ty = c->getType();
+	const llvm::DataLayout& dl = theModule->getDataLayout();
+	gv = new llvm::GlobalVariable(*theModule, ty, true, llvm::Function::PrivateLinkage, c, "constant");
+	gv->setUnnamedAddr(llvm::GlobalValue::UnnamedAddr::Global);
+	gv->setAlignment(std::max(llvm::Align(8), dl.getPrefTypeAlign(ty)));
+    }
+    return gv;
+}
+
+// Large constants are copied, one instruction for each component takes far too long to compile.
+static void StoreValue(llvm::Value* v, llvm::Value* dest)
+{
+    if (auto c = llvm::dyn_cast<llvm::Constant>(v); c && c->getType()->isAggregateType())
+    {
+	const llvm::DataLayout& dl = theModule->getDataLayout();
+	size_t                  size = dl.getTypeAllocSize(c->getType());
+	if (size >= MEMCPY_THRESHOLD)
+	{
+	    llvm::Align align = std::min(llvm::Align(8), dl.getABITypeAlign(c->getType()));
+	    builder.CreateMemCpy(dest, align, ConstantInMemory(c), align, size);
+	    return;
+	}
+    }
+    builder.CreateStore(v, dest);
+}
+
 llvm::Value* MakeAddressable(ExprAST* e)
 {
     if (auto ea = llvm::dyn_cast<AddressableAST>(e))
@@ -225,6 +258,10 @@ llvm::Value* MakeAddressable(ExprAST* e)
     {
 	return store;
     }
+    if (llvm::isa<InitValueAST, InitArrayAST, InitRecordAST>(e) && store->getType()->isAggregateType())
+    {
+	return ConstantInMemory(llvm::cast<llvm::Constant>(store));
+    }
 
     llvm::Value* v = CreateTempAlloca(e->Type());
     builder.CreateStore(store, v);
@@ -1580,6 +1617,8 @@ void CallExprAST::DoDump() const
     std::cerr << ")";
 }
 
+static llvm::Constant* InitConstant(ExprAST* e, llvm::Type* ty);
+
 static llvm::Value* CopyDynArray(llvm::Value* src, Types::TypeDecl* ty)
 {
     auto        dty = llvm::cast<Types::DynArrayDecl>(ty);
@@ -1664,7 +1703,7 @@ static std::vector<llvm::Value*> CreateArgList(const std::vector<ExprAST*>& args
 			    v = CreateTempAlloca(i->Type());
 			    llvm::Value* x = i->CodeGen();
 			    ICE_IF(!x, "Expected CodeGen to work");
-			    builder.CreateStore(x, v);
+			    StoreValue(x, v);
 			}
 		    }
 		    else
@@ -2424,7 +2463,7 @@ llvm::Value* AssignExprAST::CodeGen()
     }
 
     llvm::Value* v = rhs->CodeGen();
-    builder.CreateStore(v, dest);
+    StoreValue(v, dest);
     return v;
 }
 
@@ -3380,8 +3419,7 @@ llvm::Value* VarDeclAST::CodeGenGlobal(VarDef var)
     }
     else if (ExprAST* iv = var.Init())
     {
-	init = llvm::dyn_cast<llvm::Constant>(iv->CodeGen());
-	ICE_IF(!init, "Expected intializer to be constant");
+	init = InitConstant(iv, ty);
     }
     else
     {
@@ -3450,8 +3488,7 @@ llvm::Value* VarDeclAST::CodeGenLocal(VarDef var)
     }
     else if (ExprAST* iv = var.Init())
     {
-	llvm::Value* init = iv->CodeGen();
-	builder.CreateStore(init, v);
+	StoreValue(iv->CodeGen(), v);
     }
     else if (ContainsFile(var.Type()))
     {
@@ -4539,8 +4576,59 @@ static llvm::Constant* MakeCharArray(Types::TypeDecl* type, const ExprAST* value
     return llvm::ConstantArray::get(arrTy, llvm::ArrayRef<llvm::Constant*>(initArr));
 }
 
+// Types that are made alike are not one type to LLVM.
+static llvm::Constant* AsType(llvm::Constant* c, llvm::Type* ty)
+{
+    ICE_IF(!c, "Expected initializer to be constant");
+    if (c->getType() == ty)
+    {
+	return c;
+    }
+    std::vector<llvm::Constant*> parts;
+    if (auto sty = llvm::dyn_cast<llvm::StructType>(ty))
+    {
+	for (unsigned i = 0; i < sty->getNumElements(); i++)
+	{
+	    parts.push_back(AsType(c->getAggregateElement(i), sty->getElementType(i)));
+	}
+	return llvm::ConstantStruct::get(sty, parts);
+    }
+    if (auto aty = llvm::dyn_cast<llvm::ArrayType>(ty))
+    {
+	for (unsigned i = 0; i < aty->getNumElements(); i++)
+	{
+	    parts.push_back(AsType(c->getAggregateElement(i), aty->getElementType()));
+	}
+	return llvm::ConstantArray::get(aty, parts);
+    }
+    return c;
+}
+
+static llvm::Constant* InitConstant(ExprAST* e, llvm::Type* ty)
+{
+    return AsType(llvm::dyn_cast<llvm::Constant>(e->CodeGen()), ty);
+}
+
+// The value of a component that is not mentioned
+static llvm::Constant* DefaultInit(Types::TypeDecl* ty)
+{
+    if (ExprAST* init = ty->Init())
+    {
+	return InitConstant(init, ty->LlvmType());
+    }
+    return llvm::Constant::getNullValue(ty->LlvmType());
+}
+
 llvm::Value* InitValueAST::CodeGen()
 {
+    if (auto ie = llvm::dyn_cast<IntegerExprAST>(values[0]); ie && IsIntegral(type))
+    {
+	return llvm::ConstantInt::get(type->LlvmType(), ie->Int());
+    }
+    if (llvm::isa<InitValueAST, InitArrayAST, InitRecordAST>(values[0]))
+    {
+	return InitConstant(values[0], type->LlvmType());
+    }
     if (auto set = llvm::dyn_cast<SetExprAST>(values[0]))
     {
 	return set->MakeConstantSetArray();
@@ -4551,8 +4639,9 @@ llvm::Value* InitValueAST::CodeGen()
 	auto        se = llvm::dyn_cast<StringExprAST>(values[0]);
 	std::string str;
 	str.resize(size);
-	ICE_IF(!se, "Expected this to be a string expression");
-	const std::string& val = se->Str();
+	auto        ie = llvm::dyn_cast<IntegerExprAST>(values[0]);
+	ICE_IF(!se && !ie, "Expected this to be a string expression");
+	const std::string val = se ? se->Str() : std::string(1, ie->Int());
 	str[0] = val.size();
 	for (size_t i = 1; i <= val.size(); i++)
 	{
@@ -4599,46 +4688,57 @@ llvm::Value* InitArrayAST::CodeGen()
 {
     auto aty = llvm::dyn_cast<Types::ArrayDecl>(type);
     ICE_IF(!aty, "Expected array type here");
-    ICE_IF(aty->Ranges().size() != 1, "Expect only 1D arrays right now");
+    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
+
     Types::Range*                range = aty->Ranges()[0]->GetRange();
     size_t                       size = range->Size();
-    std::vector<llvm::Constant*> initArr(size);
-    llvm::Constant*              otherwise = 0;
+    llvm::Type*                  elemTy = arrty->getElementType();
+    std::vector<llvm::Constant*> initArr(arrty->getNumElements());
+    // The further dimensions, if any, are stored in one
+    size_t          inner = initArr.size() / size;
+    llvm::Constant* otherwise = 0;
+    auto            Set = [&](int64_t i, llvm::Constant* c)
+    {
+	for (size_t j = 0; j < inner; j++)
+	{
+	    bool all = c->getType() == elemTy || aty->Ranges().size() == 1;
+	    initArr[(i - range->Start()) * inner + j] = AsType(all ? c : c->getAggregateElement(j), elemTy);
+	}
+    };
     for (auto v : values)
     {
 	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
+	ICE_IF(!c, "Expected initializer to be constant");
 	switch (v.Kind())
 	{
 	case ArrayInit::InitKind::Range:
 	    for (int64_t i = v.Start(); i <= v.End(); i++)
 	    {
-		initArr[i - range->Start()] = c;
+		Set(i, c);
 	    }
 	    break;
 	case ArrayInit::InitKind::Single:
-	    initArr[v.Start() - range->Start()] = c;
+	    Set(v.Start(), c);
 	    break;
 	case ArrayInit::InitKind::Otherwise:
-	    ICE_IF(otherwise, "Expected only one otherwise initializer");
 	    otherwise = c;
 	    break;
 	default:
 	    ICE("Unknown initializer kind");
 	}
     }
-    for (auto& i : initArr)
+    if (!otherwise)
+    {
+	otherwise = DefaultInit(aty->SubType());
+    }
+    for (size_t i = 0; i < size; i++)
     {
-	if (!i)
+	if (!initArr[i * inner])
 	{
-	    i = otherwise;
+	    Set(range->Start() + i, otherwise);
 	}
     }
-
-    auto arrty = llvm::dyn_cast<llvm::ArrayType>(type->LlvmType());
-
-    llvm::Constant* init = llvm::ConstantArray::get(arrty,
-                                                    llvm::ArrayRef<llvm::Constant*>(initArr.data(), size));
-    return init;
+    return llvm::ConstantArray::get(arrty, initArr);
 }
 
 void InitArrayAST::DoDump() const
@@ -4669,17 +4769,26 @@ llvm::Value* InitRecordAST::CodeGen()
 {
     auto fty = llvm::dyn_cast<Types::FieldCollection>(type);
     ICE_IF(!fty, "Expected field collection type here");
-    std::vector<llvm::Constant*> initArr(fty->FieldCount());
+    auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
+    fty->EnsureSized();
+    std::vector<llvm::Constant*> initArr(ty->getNumElements());
 
     for (auto v : values)
     {
-	auto c = llvm::dyn_cast<llvm::Constant>(v.Value()->CodeGen());
 	for (auto e : v.Elements())
 	{
-	    initArr[e] = c;
+	    initArr[e] = InitConstant(v.Value(), ty->getElementType(e));
+	}
+    }
+    for (size_t i = 0; i < initArr.size(); i++)
+    {
+	if (!initArr[i])
+	{
+	    bool field = int(i) < fty->FieldCount();
+	    initArr[i] = field ? AsType(DefaultInit(fty->GetElement(i)->SubType()), ty->getElementType(i))
+	                       : llvm::Constant::getNullValue(ty->getElementType(i));
 	}
     }
-    auto ty = llvm::dyn_cast<llvm::StructType>(type->LlvmType());
 
     llvm::Constant* init = llvm::ConstantStruct::get(ty, initArr);
     return init;
diff --git a/parser.cpp b/parser.cpp
index b7ba715..cad38d7 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -127,6 +127,7 @@ public:
 
     ExprAST* ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* c);
     ExprAST* ParseInitValue(Types::TypeDecl* ty);
+    ExprAST* InitFromConst(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd);
 
     // Type declarations and defintitions
     void  ParseTypeDef();
@@ -175,7 +176,9 @@ public:
     std::string GetIdentifier(const char* file, int line, ExpectConsuming consumption);
 
     // General helper functions
-    void ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount);
+    void             AddIncomplete(const Types::TypeDecl* ty);
+    Types::TypeDecl* CloneWithInit(Types::TypeDecl* ty, ExprAST* init);
+    void             ExpandWithNames(const Types::FieldCollection* fields, ExprAST* v, int parentCount);
 
     // Helper functions for expression evaluation
     bool     IsCall(const NamedObject* def);
@@ -219,6 +222,8 @@ private:
     int                       uniqueCount;
     Stack<const NamedObject*> nameStack;
     std::vector<ExprAST*>     ast;
+    // Pointer types in this type definition part that are yet to be resolved
+    std::vector<Types::PointerDecl*> incomplete;
 };
 
 using NameWrapper = StackWrapper<const NamedObject*>;
@@ -1341,10 +1346,27 @@ Types::Schema* Parser::ParseSchemaVars()
     return new Types::Schema(args);
 }
 
+// Remember the pointer types that are resolved at the end of the type definitions.
+void Parser::AddIncomplete(const Types::TypeDecl* ty)
+{
+    auto pty = llvm::dyn_cast<Types::PointerDecl>(const_cast<Types::TypeDecl*>(ty));
+    if (pty && pty->IsIncomplete())
+    {
+	incomplete.push_back(pty);
+    }
+}
+
+Types::TypeDecl* Parser::CloneWithInit(Types::TypeDecl* ty, ExprAST* init)
+{
+    Types::TypeDecl* newTy = Types::CloneWithInit(ty, init);
+    AddIncomplete(ty);
+    AddIncomplete(newTy);
+    return newTy;
+}
+
 // Deal with type name = ... defintions
 void Parser::ParseTypeDef()
 {
-    std::vector<Types::PointerDecl*> incomplete;
     AssertToken(Token::Type);
     do
     {
@@ -1377,13 +1399,9 @@ void Parser::ParseTypeDef()
 		    {
 			return;
 		    }
-		    ty = Types::CloneWithInit(ty, init);
-		}
-		auto pty = llvm::dyn_cast<Types::PointerDecl>(ty);
-		if (pty && pty->IsIncomplete())
-		{
-		    incomplete.push_back(pty);
+		    ty = CloneWithInit(ty, init);
 		}
+		AddIncomplete(ty);
 		if (!Expect(Token::Semicolon, ExpectConsume))
 		{
 		    return;
@@ -1403,8 +1421,15 @@ void Parser::ParseTypeDef()
     } while (CurrentToken().GetToken() == Token::Identifier);
 
     // Now fix up any incomplete types...
-    for (auto p : incomplete)
+    std::vector<Types::PointerDecl*> pointers;
+    pointers.swap(incomplete);
+    for (auto p : pointers)
     {
+	// An alias of a pointer type is the same type.
+	if (!p->IsIncomplete())
+	{
+	    continue;
+	}
 	std::string name = p->SubType()->Name();
 	if (Types::TypeDecl* ty = GetTypeDecl(name))
 	{
@@ -1591,7 +1616,13 @@ Types::TypeDecl* Parser::ParseArrayDecl(Types::Schema* schema)
 		{
 		    return new Types::SchemaArrayDecl(ty, rv);
 		}
-		return new Types::ArrayDecl(ty, rv);
+		Types::TypeDecl* arr = new Types::ArrayDecl(ty, rv);
+		if (ty->Init())
+		{
+		    // Every component has that initial value
+		    arr = Types::CloneWithInit(arr, new InitArrayAST(Location(), arr, { ArrayInit(ty->Init()) }));
+		}
+		return arr;
 	    }
 	}
     }
@@ -1704,7 +1735,7 @@ Types::VariantDecl* Parser::ParseVariantDecl(Types::FieldDecl*& markerField)
 			    {
 				return 0;
 			    }
-			    ty = Types::CloneWithInit(ty, init);
+			    ty = CloneWithInit(ty, init);
 			}
 			for (auto n : names)
 			{
@@ -1848,7 +1879,7 @@ bool Parser::ParseFields(std::vector<Types::FieldDecl*>& fields, Types::VariantD
 			{
 			    return 0;
 			}
-			ty = Types::CloneWithInit(ty, init);
+			ty = CloneWithInit(ty, init);
 		    }
 		    for (auto n : ccv.Names())
 		    {
@@ -3119,6 +3150,11 @@ ExprAST* Parser::ConstDeclToExpr(const Location& loc, Types::TypeDecl* ty, const
     return Error("Unexpected constant type");
 }
 
+static bool InRange(const Types::Range* r, int64_t value)
+{
+    return r->Start() <= value && value <= r->End();
+}
+
 class CCArrayInitList : public ListConsumer
 {
 public:
@@ -3126,14 +3162,25 @@ public:
         : ListConsumer{ { Token::Comma, Token::Semicolon, { Token::Otherwise, NoExpectConsume } },
 	                { Token::RightSquare },
 	                ListConsumer::AllowEmpty::Yes }
-        , type(ty)
+        , range(ty->Ranges()[0]->GetRange())
+        , subType(ty->SubType())
     {
+	if (ty->Ranges().size() > 1)
+	{
+	    subType = new Types::ArrayDecl(subType, { ty->Ranges().begin() + 1, ty->Ranges().end() });
+	}
     }
     bool Consume(Parser& parser) override
     {
 	if (parser.AcceptToken(Token::Otherwise))
 	{
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
+	    // A colon is not needed
+	    parser.AcceptToken(Token::Colon);
+	    ExprAST* e = parser.ParseInitValue(subType);
+	    if (!e)
+	    {
+		return false;
+	    }
 	    list.push_back({ e });
 	    return true;
 	}
@@ -3146,9 +3193,9 @@ public:
 		parser.Error("Initializer index should be an integral type");
 		return false;
 	    }
-	    int  value = Constants::ToInt(cd);
-	    int  end = 0;
-	    bool hasEnd = false;
+	    int64_t value = Constants::ToInt(cd);
+	    int64_t end = 0;
+	    bool    hasEnd = false;
 	    if (parser.AcceptToken(Token::DotDot))
 	    {
 		cd = parser.ParseConstExpr({ Token::Colon });
@@ -3166,7 +3213,12 @@ public:
 		hasEnd = true;
 	    }
 	    parser.Expect(Token::Colon, ExpectConsume);
-	    ExprAST* e = parser.ParseInitValue(type->SubType());
+	    if (!InRange(range, value) || (hasEnd && !InRange(range, end)))
+	    {
+		parser.Error("Initializer index is outside the array");
+		return false;
+	    }
+	    ExprAST* e = parser.ParseInitValue(subType);
 	    if (!e)
 	    {
 		return false;
@@ -3187,7 +3239,8 @@ public:
 
 private:
     std::vector<ArrayInit> list;
-    Types::ArrayDecl*      type;
+    Types::Range*          range;
+    Types::TypeDecl*       subType;
 };
 
 class CCRecordInitList : public ListConsumer
@@ -3201,7 +3254,8 @@ public:
 
     bool Consume(Parser& parser) override
     {
-	std::vector<int> elems;
+	std::vector<int>        elems;
+	const Types::FieldDecl* fty = nullptr;
 	do
 	{
 	    std::string fieldName = parser.GetIdentifier(ExpectConsume);
@@ -3209,21 +3263,21 @@ public:
 	    {
 		return false;
 	    }
-	    int                     elem = type->Element(fieldName);
-	    const Types::FieldDecl* fty = nullptr;
+	    int elem = type->Element(fieldName);
 	    if (elem >= 0)
 	    {
-		if (fty)
+		if (fty && *fty->SubType() != *type->GetElement(elem)->SubType())
 		{
-		    if (fty != type->GetElement(elem))
-		    {
-			return parser.ErrorT(bool, "Should be same types for field initializers");
-		    }
+		    return parser.ErrorT(bool, "Should be same types for field initializers");
 		}
-		else
+		for (auto& l : list)
 		{
-		    fty = type->GetElement(elem);
+		    if (std::find(l.Elements().begin(), l.Elements().end(), elem) != l.Elements().end())
+		    {
+			return parser.ErrorT(bool, "Field has a value already: " + fieldName);
+		    }
 		}
+		fty = type->GetElement(elem);
 		elems.push_back(elem);
 	    }
 	    else
@@ -3238,6 +3292,7 @@ public:
 		    list.push_back({ elems, e });
 		    return true;
 		}
+		return false;
 	    }
 	} while (true);
     }
@@ -3248,6 +3303,62 @@ private:
     Types::FieldCollection* type;
 };
 
+ExprAST* Parser::InitFromConst(const Location& loc, Types::TypeDecl* ty, const Constants::ConstDecl* cd)
+{
+    const Types::TypeDecl* cty = cd->Type();
+    bool                   fits = true;
+    if (IsIntegral(ty) && IsIntegral(cty))
+    {
+	int64_t value = Constants::ToInt(cd);
+	bool    isNumber = llvm::isa<Constants::IntConstDecl>(cd);
+	fits = isNumber ? llvm::isa<Types::IntegerDecl, Types::Int64Decl>(Types::BaseOrdinalType(ty))
+	                : ty->AssignableType(cty) != nullptr;
+	if (auto rd = llvm::dyn_cast<Types::RangeDecl>(ty))
+	{
+	    fits = fits && InRange(rd->GetRange(), value);
+	}
+	else if (llvm::isa<Types::IntegerDecl>(ty))
+	{
+	    fits = fits && value == int(value);
+	}
+    }
+    else if (auto sc = llvm::dyn_cast<Constants::StringConstDecl>(cd))
+    {
+	size_t size = 0;
+	if (auto sd = llvm::dyn_cast<Types::StringDecl>(ty))
+	{
+	    size = sd->Capacity();
+	}
+	else if (IsCharArray(ty))
+	{
+	    size = ty->Size();
+	}
+	fits = sc->Value().size() <= size && size;
+    }
+    else if (llvm::isa<Constants::CompoundConstDecl>(cd))
+    {
+	fits = *ty == *cty;
+    }
+    else if (llvm::isa<Types::CharDecl>(cty))
+    {
+	fits = IsStringLike(ty);
+    }
+    else
+    {
+	fits = llvm::isa<Types::RealDecl>(ty);
+    }
+    if (!fits)
+    {
+	return Error("Initial value does not fit the type");
+    }
+    ExprAST* e = ConstDeclToExpr(loc, ty, cd);
+    if (!e)
+    {
+	return 0;
+    }
+    return new InitValueAST(loc, ty, { e });
+}
+
 ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 {
     TRACE();
@@ -3282,7 +3393,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
 		    return Error("Incompatible type");
 		}
 		NextToken();
-		return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+		return InitFromConst(loc, ty, cd);
 	    }
 	    return Error("Unexpected identifier");
 	}
@@ -3316,7 +3427,7 @@ ExprAST* Parser::ParseInitValue(Types::TypeDecl* ty)
                                                           Token::RightSquare, Token::Otherwise,
                                                           Token::RightParen }))
     {
-	return new InitValueAST(loc, ty, { ConstDeclToExpr(loc, ty, cd) });
+	return InitFromConst(loc, ty, cd);
     }
     return 0;
 }
@@ -3370,7 +3481,10 @@ VarDeclAST* Parser::ParseVarDecls()
 		{
 		    init = type->Init();
 		}
-		varList.back().SetInit(init);
+		for (size_t i = varList.size() - ccv.Names().size(); i < varList.size(); i++)
+		{
+		    varList[i].SetInit(init);
+		}
 		good = Expect(Token::Semicolon, ExpectConsume);
 	    }
 	}
diff --git a/types.cpp b/types.cpp
index 4e0aa54..de0b405 100644
--- a/types.cpp
+++ b/types.cpp
@@ -817,16 +817,9 @@ namespace Types
 
     bool RecordDecl::SameAs(const TypeDecl* ty) const
     {
-	if (this == ty || this->clonedFrom == ty)
-	{
-	    return true;
-	}
 	if (auto rd = llvm::dyn_cast<RecordDecl>(ty))
 	{
-	    if (rd->clonedFrom == this)
-	    {
-		return true;
-	    }
+	    return (clonedFrom ? clonedFrom : this) == (rd->clonedFrom ? rd->clonedFrom : rd);
 	}
 	return false;
     }
diff --git a/types.h b/types.h
index cddb6c1..1d2ec1e 100644
--- a/types.h
+++ b/types.h
@@ -271,6 +271,7 @@ namespace Types
     public:
 	void        DoDump() const override;
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Range; }
+	TypeDecl*   Clone() const override { return new RangeDecl(range, baseType); }
 	bool        SameAs(const TypeDecl* ty) const override;
 	int64_t     Start() const { return range->Start(); }
 	int64_t     End() const { return range->End(); }
@@ -412,6 +413,7 @@ namespace Types
 	void        DoDump() const override;
 	bool        SameAs(const TypeDecl* ty) const override { return ty->Type() == kind; }
 	static bool classof(const TypeDecl* e) { return e->getKind() == TK_Boolean; }
+	TypeDecl*   Clone() const override { return new BoolDecl(); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -710,6 +712,7 @@ namespace Types
 	void            UpdateSubtype(TypeDecl* ty);
 	bool            SameAs(const TypeDecl* ty) const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
+	TypeDecl*       Clone() const override { return new SetDecl(range, baseType); }
 
     protected:
 	llvm::Type*   GetLlvmType() const override;
@@ -731,6 +734,7 @@ namespace Types
 	void            DoDump() const override;
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	int             Capacity() const { return Ranges()[0]->GetRange()->Size() - 2; }
+	TypeDecl*       Clone() const override { return new StringDecl(Capacity()); }
     };
 
     class ComplexDecl : public RecordDecl
@@ -745,6 +749,7 @@ namespace Types
 	}
 	const TypeDecl* CompatibleType(const TypeDecl* ty) const override;
 	static bool     classof(const TypeDecl* e) { return e->getKind() == TK_Complex; }
+	TypeDecl*       Clone() const override { return new ComplexDecl(); }
     };
 
     llvm::Type* GetVoidPtrType();
-- 
2.43.0

