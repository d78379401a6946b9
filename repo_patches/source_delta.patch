From be1a2a1907b166d0821f5f89c2e75dea1c2d6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 01/59] fix: keep a jump to the next block when unreachable
 instructions follow it (break in while loop was ignored without
 optimizations)

---
 NULLC/InstructionTreeRegVmLower.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..c79e330 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1650,8 +1650,8 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 	}
 	break;
 	case VM_INST_JUMP:
-		// Check if jump is fall-through (except for fallthrough from empty entry block)
-		if(!(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0]) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL))
+		// Check if jump is fall-through (except for fallthrough from empty entry block and a jump that is followed by unreachable instructions)
+		if(!(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0]) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL) || inst->nextSibling)
 		{
 			lowBlock->AddInstruction(ctx, inst->source, rviJmp, 0, 0, 0, getType<VmBlock>(inst->arguments[0]));
 		}
-- 
2.43.0


From 5f1ecd7142ce3f50829a4d4eec9a5e4f8261f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 02/59] fix: integer division and modulus of the smallest value
 by -1 wraps around instead of crashing the host

---
 NULLC/CodeGenRegVm_X86.cpp      | 58 +++++++++++++++++++++++++--------
 NULLC/Executor_Common.h         | 21 ++++++++++++
 NULLC/Executor_RegVm.cpp        |  8 ++---
 NULLC/ExpressionEval.cpp        |  9 ++---
 NULLC/InstructionTreeVm.cpp     |  9 ++---
 NULLC/InstructionTreeVmEval.cpp | 17 +++++-----
 6 files changed, 88 insertions(+), 34 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..9b76da4 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2687,26 +2687,60 @@ void GenCodeCmdMul(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 #endif
 }
 
+// Divide value in EAX by value in ECX, quotient is placed in EAX and remainder is placed in EDX
+void GenCodeDivideInt32(CodeGenRegVmContext &ctx)
+{
+	// Replace a division by -1 with division of the negated value by 1, division of the smallest value by -1 causes a hardware exception
+	EMIT_OP_REG_NUM(ctx.ctx, o_cmp, rECX, unsigned(-1));
+	EMIT_OP_LABEL(ctx.ctx, o_jne, ctx.labelCount, true);
+
+	EMIT_OP_REG(ctx.ctx, o_neg, rEAX);
+	EMIT_OP_REG_NUM(ctx.ctx, o_mov, rECX, 1);
+
+	EMIT_LABEL(ctx.ctx, ctx.labelCount, true);
+	ctx.labelCount++;
+
+	EMIT_OP(ctx.ctx, o_cdq);
+	EMIT_OP_REG(ctx.ctx, o_idiv, rECX);
+}
+
+#if defined(_M_X64)
+// Divide value in RAX by value in RCX, quotient is placed in RAX and remainder is placed in RDX
+void GenCodeDivideInt64(CodeGenRegVmContext &ctx)
+{
+	// Replace a division by -1 with division of the negated value by 1, division of the smallest value by -1 causes a hardware exception
+	EMIT_OP_REG_NUM(ctx.ctx, o_cmp64, rRCX, unsigned(-1));
+	EMIT_OP_LABEL(ctx.ctx, o_jne, ctx.labelCount, true);
+
+	EMIT_OP_REG(ctx.ctx, o_neg64, rRAX);
+	EMIT_OP_REG_NUM(ctx.ctx, o_mov, rECX, 1);
+
+	EMIT_LABEL(ctx.ctx, ctx.labelCount, true);
+	ctx.labelCount++;
+
+	EMIT_OP(ctx.ctx, o_cqo);
+	EMIT_OP_REG(ctx.ctx, o_idiv64, rRCX);
+}
+#endif
+
 void GenCodeCmdDiv(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 {
 #if defined(_M_X64)
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov, rEAX, sDWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cdq);
 
 	GenCodeLoadInt32FromPointer(ctx, rRCX, rECX, cmd.rC, cmd.argument);
 
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv, rECX);
+	GenCodeDivideInt32(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rEAX); // Store int to target
 #else
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov, rEAX, sDWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cdq);
 
 	x86GenCodeLoadInt32FromPointer(ctx, rECX, rECX, cmd.rC, cmd.argument);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv, rECX);
+	GenCodeDivideInt32(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rEAX); // Store int to target
 #endif
@@ -2753,24 +2787,22 @@ void GenCodeCmdMod(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 {
 #if defined(_M_X64)
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov, rEAX, sDWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cdq);
 
 	GenCodeLoadInt32FromPointer(ctx, rRCX, rECX, cmd.rC, cmd.argument);
 
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv, rECX);
+	GenCodeDivideInt32(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rEDX); // Store int to target
 #else
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov, rEAX, sDWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cdq);
 
 	x86GenCodeLoadInt32FromPointer(ctx, rECX, rECX, cmd.rC, cmd.argument);
 
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv, rECX);
+	GenCodeDivideInt32(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rEDX); // Store int to target
 #endif
@@ -3264,7 +3296,7 @@ void GenCodeCmdMull(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 long long x86DivlWrap(long long lhs, long long rhs)
 {
-	return lhs / rhs;
+	return VmLongDiv(lhs, rhs);
 }
 
 void GenCodeCmdDivl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
@@ -3273,13 +3305,12 @@ void GenCodeCmdDivl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 #if defined(_M_X64)
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, rRAX, sQWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cqo);
 
 	GenCodeLoadInt64FromPointer(ctx, rRCX, rRCX, cmd.rC, cmd.argument);
 
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv64, rRCX);
+	GenCodeDivideInt64(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov64, sQWORD, rREG, cmd.rA * 8, rRAX); // Store long to target
 #else
@@ -3347,7 +3378,7 @@ void GenCodeCmdPowl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 long long x86ModlWrap(long long lhs, long long rhs)
 {
-	return lhs % rhs;
+	return VmLongMod(lhs, rhs);
 }
 
 void GenCodeCmdModl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
@@ -3356,13 +3387,12 @@ void GenCodeCmdModl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 
 #if defined(_M_X64)
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, rRAX, sQWORD, rREG, cmd.rB * 8); // Load lhs
-	EMIT_OP(ctx.ctx, o_cqo);
 
 	GenCodeLoadInt64FromPointer(ctx, rRCX, rRCX, cmd.rC, cmd.argument);
 
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
-	EMIT_OP_REG(ctx.ctx, o_idiv64, rRCX);
+	GenCodeDivideInt64(ctx);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov64, sQWORD, rREG, cmd.rA * 8, rRDX); // Store long to target
 #else
diff --git a/NULLC/Executor_Common.h b/NULLC/Executor_Common.h
index 849de98..0a13388 100644
--- a/NULLC/Executor_Common.h
+++ b/NULLC/Executor_Common.h
@@ -54,5 +54,26 @@ int GetExecutorResultInt(unsigned tempStackType, unsigned *tempStackArrayBase);
 double GetExecutorResultDouble(unsigned tempStackType, unsigned *tempStackArrayBase);
 long long GetExecutorResultLong(unsigned tempStackType, unsigned *tempStackArrayBase);
 
+// Division of the smallest value by -1 wraps around instead of causing a hardware exception, divisor must not be zero
+inline int VmIntDiv(int lhs, int rhs)
+{
+	return rhs == -1 ? int(0u - unsigned(lhs)) : lhs / rhs;
+}
+
+inline int VmIntMod(int lhs, int rhs)
+{
+	return rhs == -1 ? 0 : lhs % rhs;
+}
+
+inline long long VmLongDiv(long long lhs, long long rhs)
+{
+	return rhs == -1 ? (long long)(0ull - (unsigned long long)(lhs)) : lhs / rhs;
+}
+
+inline long long VmLongMod(long long lhs, long long rhs)
+{
+	return rhs == -1 ? 0 : lhs % rhs;
+}
+
 int VmIntPow(int power, int number);
 long long VmLongPow(long long power, long long number);
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..0dcf521 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -841,7 +841,7 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
-			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue / *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
+			regFilePtr[cmd.rA].intValue = VmIntDiv(regFilePtr[cmd.rB].intValue, *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument));
 			instruction++;
 			BREAK;
 		CASE(rviPow)
@@ -858,7 +858,7 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
-			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue % *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
+			regFilePtr[cmd.rA].intValue = VmIntMod(regFilePtr[cmd.rB].intValue, *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument));
 			instruction++;
 			BREAK;
 		CASE(rviLess)
@@ -970,7 +970,7 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
-			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue / *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
+			regFilePtr[cmd.rA].longValue = VmLongDiv(regFilePtr[cmd.rB].longValue, *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument));
 			instruction++;
 			BREAK;
 		CASE(rviPowl)
@@ -987,7 +987,7 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
-			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
+			regFilePtr[cmd.rA].longValue = VmLongMod(regFilePtr[cmd.rB].longValue, *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument));
 			instruction++;
 			BREAK;
 		CASE(rviLessl)
diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index aa1f38c..84a59e1 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -2,6 +2,7 @@
 
 #include <math.h>
 
+#include "Executor_Common.h"
 #include "ExpressionTree.h"
 
 #define FMT_ISTR(x) unsigned(x.end - x.begin), x.begin
@@ -673,12 +674,12 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, VmIntDiv(lhsValueInt, rhsValueInt));
 				case SYN_BINARY_OP_MOD:
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, VmIntMod(lhsValueInt, rhsValueInt));
 				case SYN_BINARY_OP_POW:
 					if(rhsValueInt < 0)
 						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
@@ -749,12 +750,12 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, VmLongDiv(lhsValue, rhsValue));
 				case SYN_BINARY_OP_MOD:
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, VmLongMod(lhsValue, rhsValue));
 				case SYN_BINARY_OP_POW:
 					if(rhsValue < 0)
 						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..aae4521 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1,5 +1,6 @@
 #include "InstructionTreeVm.h"
 
+#include "Executor_Common.h"
 #include "ExpressionTree.h"
 #include "InstructionTreeVmCommon.h"
 #include "nullc_internal.h"
@@ -4701,20 +4702,20 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 			if(!IsConstantZero(consts[1]))
 			{
 				if(inst->type == VmType::Int)
-					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue / consts[1]->iValue), &module->constantPropagations);
+					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, VmIntDiv(consts[0]->iValue, consts[1]->iValue)), &module->constantPropagations);
 				else if(inst->type == VmType::Double)
 					ReplaceValueUsersWith(module, inst, CreateConstantDouble(module->allocator, inst->source, consts[0]->dValue / consts[1]->dValue), &module->constantPropagations);
 				else if(inst->type == VmType::Long)
-					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue / consts[1]->lValue), &module->constantPropagations);
+					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, VmLongDiv(consts[0]->lValue, consts[1]->lValue)), &module->constantPropagations);
 			}
 			break;
 		case VM_INST_MOD:
 			if(!IsConstantZero(consts[1]))
 			{
 				if(inst->type == VmType::Int)
-					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue % consts[1]->iValue), &module->constantPropagations);
+					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, VmIntMod(consts[0]->iValue, consts[1]->iValue)), &module->constantPropagations);
 				else if(inst->type == VmType::Long)
-					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue % consts[1]->lValue), &module->constantPropagations);
+					ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, VmLongMod(consts[0]->lValue, consts[1]->lValue)), &module->constantPropagations);
 			}
 			break;
 		case VM_INST_LESS:
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 1770a2e..a7b6b4c 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -2,6 +2,7 @@
 
 #include <math.h>
 
+#include "Executor_Common.h"
 #include "ExpressionTree.h"
 #include "TypeTree.h"
 #include "InstructionTreeVm.h"
@@ -992,11 +993,11 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 		if(arguments[0]->type == VmType::Int)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / arguments[1]->iValue);
+			return CreateConstantInt(ctx.allocator, NULL, VmIntDiv(arguments[0]->iValue, arguments[1]->iValue));
 		else if(arguments[0]->type == VmType::Double)
 			return CreateConstantDouble(ctx.allocator, NULL, arguments[0]->dValue / arguments[1]->dValue);
 		else if(arguments[0]->type == VmType::Long)
-			return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue / arguments[1]->lValue);
+			return CreateConstantLong(ctx.allocator, NULL, VmLongDiv(arguments[0]->lValue, arguments[1]->lValue));
 
 		break;
 	case VM_INST_POW:
@@ -1017,11 +1018,11 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 		if(arguments[0]->type == VmType::Int)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % arguments[1]->iValue);
+			return CreateConstantInt(ctx.allocator, NULL, VmIntMod(arguments[0]->iValue, arguments[1]->iValue));
 		else if(arguments[0]->type == VmType::Double)
 			return CreateConstantDouble(ctx.allocator, NULL, fmod(arguments[0]->dValue, arguments[1]->dValue));
 		else if(arguments[0]->type == VmType::Long)
-			return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue % arguments[1]->lValue);
+			return CreateConstantLong(ctx.allocator, NULL, VmLongMod(arguments[0]->lValue, arguments[1]->lValue));
 
 		break;
 	case VM_INST_LESS:
@@ -1221,11 +1222,11 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 			if(arguments[0]->type == VmType::Int)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / rhs->iValue);
+				return CreateConstantInt(ctx.allocator, NULL, VmIntDiv(arguments[0]->iValue, rhs->iValue));
 			else if(arguments[0]->type == VmType::Double)
 				return CreateConstantDouble(ctx.allocator, NULL, arguments[0]->dValue / rhs->dValue);
 			else if(arguments[0]->type == VmType::Long)
-				return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue / rhs->lValue);
+				return CreateConstantLong(ctx.allocator, NULL, VmLongDiv(arguments[0]->lValue, rhs->lValue));
 		}
 		else
 		{
@@ -1259,11 +1260,11 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
 			if(arguments[0]->type == VmType::Int)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % rhs->iValue);
+				return CreateConstantInt(ctx.allocator, NULL, VmIntMod(arguments[0]->iValue, rhs->iValue));
 			else if(arguments[0]->type == VmType::Double)
 				return CreateConstantDouble(ctx.allocator, NULL, fmod(arguments[0]->dValue, rhs->dValue));
 			else if(arguments[0]->type == VmType::Long)
-				return CreateConstantLong(ctx.allocator, NULL, arguments[0]->lValue % rhs->lValue);
+				return CreateConstantLong(ctx.allocator, NULL, VmLongMod(arguments[0]->lValue, rhs->lValue));
 		}
 		else
 		{
-- 
2.43.0


From f958ca472f1428fe0cc534eb63ea21d9b6b4dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 03/59] fix: do not forward a double value stored into a float
 variable to its loads without rounding it

---
 NULLC/InstructionTreeVm.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index aae4521..c192229 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1673,6 +1673,30 @@ namespace
 		return NULL;
 	}
 
+	VmValue* GetStoredValue(VmModule *module, VmInstruction *storeInst)
+	{
+		VmValue *value = storeInst->arguments[2];
+
+		// Store of a float rounds the value, so it can only be reused if it is already known to have float precision
+		if(storeInst->cmd == VM_INST_STORE_FLOAT)
+		{
+			if(VmConstant *constant = getType<VmConstant>(value))
+			{
+				if(constant->type == VmType::Double)
+					return CreateConstantDouble(module->allocator, constant->source, double(float(constant->dValue)));
+
+				return NULL;
+			}
+
+			VmInstruction *inst = getType<VmInstruction>(value);
+
+			if(!inst || inst->cmd != VM_INST_LOAD_FLOAT)
+				return NULL;
+		}
+
+		return value;
+	}
+
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
@@ -1702,10 +1726,10 @@ namespace
 				{
 					if(*el.storeAddress == *loadAddress && accessSize == el.accessSize)
 					{
-						VmValue *value = el.storeInst->arguments[2];
+						VmValue *value = GetStoredValue(module, el.storeInst);
 
 						// Can't reuse arguments of a different size
-						if(value->type.size != loadSize)
+						if(!value || value->type.size != loadSize)
 							return NULL;
 
 						return value;
@@ -5625,9 +5649,9 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 				{
 					VmValue *storePointer = prev->arguments[0];
 					VmConstant *storeOffset = getType<VmConstant>(prev->arguments[1]);
-					VmValue *storeValue = prev->arguments[2];
+					VmValue *storeValue = GetStoredValue(module, prev);
 
-					if(GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
+					if(storeValue && GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
 					{
 						if(curr->type != storeValue->type)
 						{
-- 
2.43.0


From a3bed36700f5e79eb8b42cc0504a0491fa560458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 04/59] fix: floating point literals denote the nearest
 representable value

---
 NULLC/ExpressionTree.cpp | 60 ++++++----------------------------------
 1 file changed, 8 insertions(+), 52 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index eea27c5..3d9ee09 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -216,22 +216,6 @@ namespace
 		return 0;
 	}
 
-	int ParseInteger(ExpressionContext &ctx, const char* str)
-	{
-		(void)ctx;
-
-		unsigned digit;
-		int a = 0;
-
-		while((digit = *str - '0') < 10)
-		{
-			a = a * 10 + digit;
-			str++;
-		}
-
-		return a;
-	}
-
 	unsigned long long ParseLong(ExpressionContext &ctx, SynBase *source, const char* s, const char* e, int base)
 	{
 		unsigned long long res = 0;
@@ -254,43 +238,15 @@ namespace
 		return res;
 	}
 
-	double ParseDouble(ExpressionContext &ctx, const char *str)
+	double ParseDouble(ExpressionContext &ctx, InplaceStr value)
 	{
-		unsigned digit;
-		double integer = 0.0;
-
-		while((digit = *str - '0') < 10)
-		{
-			integer = integer * 10.0 + digit;
-			str++;
-		}
+		// Copy the literal, symbols that follow it in the source code must not be consumed
+		char *str = (char*)ctx.allocator->alloc(value.length() + 1);
 
-		double fractional = 0.0;
-	
-		if(*str == '.')
-		{
-			double power = 0.1;
-			str++;
-
-			while((digit = *str - '0') < 10)
-			{
-				fractional = fractional + power * digit;
-				power /= 10.0;
-				str++;
-			}
-		}
-
-		if(*str == 'e')
-		{
-			str++;
-
-			if(*str == '-')
-				return (integer + fractional) * pow(10.0, (double)-ParseInteger(ctx, str + 1));
-			else
-				return (integer + fractional) * pow(10.0, (double)ParseInteger(ctx, str));
-		}
+		memcpy(str, value.begin, value.length());
+		str[value.length()] = 0;
 
-		return integer + fractional;
+		return strtod(str, NULL);
 	}
 
 	bool IsBinaryOp(SynUnaryOpType type)
@@ -3861,7 +3817,7 @@ ExprBase* AnalyzeNumber(ExpressionContext &ctx, SynNumber *syntax)
 
 	if(syntax->suffix == InplaceStr("f"))
 	{
-		double num = ParseDouble(ctx, value.begin);
+		double num = ParseDouble(ctx, value);
 
 		return new (ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(syntax, ctx.typeFloat, float(num));
 	}
@@ -3870,7 +3826,7 @@ ExprBase* AnalyzeNumber(ExpressionContext &ctx, SynNumber *syntax)
 		ReportAt(ctx, syntax, syntax->suffix.begin, "ERROR: unknown number suffix '%.*s'", syntax->suffix.length(), syntax->suffix.begin);
 	}
 
-	double num = ParseDouble(ctx, value.begin);
+	double num = ParseDouble(ctx, value);
 
 	return new (ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(syntax, ctx.typeDouble, num);
 }
-- 
2.43.0


From 2ad26c6de117d8cb50da9117ae690ccdbed25fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 05/59] fix: report overflow in every integer literal that does
 not fit

---
 NULLC/ExpressionTree.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 3d9ee09..ec772d1 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -227,12 +227,10 @@ namespace
 			if(digit < 0 || digit >= base)
 				ReportAt(ctx, source, p, "ERROR: digit %d is not allowed in base %d", digit, base);
 
-			unsigned long long prev = res;
+			if(res > (~0ull - digit) / base)
+				StopAt(ctx, source, s, "ERROR: overflow in integer constant");
 
 			res = res * base + digit;
-
-			if(res < prev)
-				StopAt(ctx, source, s, "ERROR: overflow in integer constant");
 		}
 
 		return res;
-- 
2.43.0


From 9d7bea7c25203be9f68a207ddd7c48410dc32571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 06/59] fix: subtraction of a constant -2147483648 from a long
 is not an addition of its 32 bit negation

---
 NULLC/InstructionTreeRegVmLower.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index c79e330..f8280ef 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -2345,7 +2345,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, -constant->iValue);
 				break;
 			}
-			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue)
+			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(-constant->lValue) == -constant->lValue)
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-- 
2.43.0


From 40c34dbaa856884b2c037e0e665f374dc170680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:34 +0000
Subject: [PATCH 07/59] fix: do not merge 0.0 with -0.0 and do not remove an
 addition that changes the sign of zero in optimizations

---
 NULLC/InstructionTreeVm.cpp       |  6 +++---
 NULLC/InstructionTreeVm.h         |  2 +-
 NULLC/InstructionTreeVmCommon.cpp | 17 +++++++++++++++++
 NULLC/InstructionTreeVmCommon.h   |  2 ++
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index c192229..7b560b3 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4335,15 +4335,15 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			if(IsConstantAdditionIdentity(inst->arguments[0])) // 0 + x, all types (-0.0 for double, because -0.0 + 0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(IsConstantAdditionIdentity(inst->arguments[1])) // x + 0, all types (-0.0 for double, because -0.0 + 0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(IsConstantZero(inst->arguments[1]) && !IsConstantNegativeZero(inst->arguments[1])) // x - 0, all types (but not -0.0 for double, because -0.0 - -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
diff --git a/NULLC/InstructionTreeVm.h b/NULLC/InstructionTreeVm.h
index 4874af0..857cf7a 100644
--- a/NULLC/InstructionTreeVm.h
+++ b/NULLC/InstructionTreeVm.h
@@ -309,7 +309,7 @@ struct VmConstant: VmValue
 
 	bool operator==(const VmConstant& rhs) const
 	{
-		return type == rhs.type && iValue == rhs.iValue && dValue == rhs.dValue && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
+		return type == rhs.type && iValue == rhs.iValue && memcmp(&dValue, &rhs.dValue, sizeof(dValue)) == 0 && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
 	}
 
 	int iValue;
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 005f06f..5e87a91 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -199,6 +199,23 @@ bool IsConstantZero(VmValue* value)
 	return DoesConstantMatchEither(value, 0, 0.0, 0ll);
 }
 
+bool IsConstantNegativeZero(VmValue* value)
+{
+	if(VmConstant *constant = getType<VmConstant>(value))
+	{
+		double negativeZero = -0.0;
+
+		return constant->type == VmType::Double && memcmp(&constant->dValue, &negativeZero, sizeof(double)) == 0;
+	}
+
+	return false;
+}
+
+bool IsConstantAdditionIdentity(VmValue* value)
+{
+	return value->type == VmType::Double ? IsConstantNegativeZero(value) : IsConstantZero(value);
+}
+
 bool IsConstantOne(VmValue* value)
 {
 	return DoesConstantMatchEither(value, 1, 1.0, 1ll);
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index 092aecf..74eb9c4 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -36,6 +36,8 @@ bool DoesConstantIntegerMatch(VmValue* value, long long number);
 bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long long lValue);
 
 bool IsConstantZero(VmValue* value);
+bool IsConstantNegativeZero(VmValue* value);
+bool IsConstantAdditionIdentity(VmValue* value);
 bool IsConstantOne(VmValue* value);
 
 unsigned GetAccessSize(VmInstruction *inst);
-- 
2.43.0


From e722e34754506ac1f143dde4feee2175dec6650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 08/59] fix: logical not of a long value compares all 64 bits
 in the JIT

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9b76da4..6f73895 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -4330,7 +4330,7 @@ void GenCodeCmdLogNotl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	EMIT_OP_REG_REG(ctx.ctx, o_xor64, rRCX, rRCX);
-	EMIT_OP_REG_REG(ctx.ctx, o_cmp, rRAX, rRCX);
+	EMIT_OP_REG_REG(ctx.ctx, o_cmp64, rRAX, rRCX);
 	EMIT_OP_REG(ctx.ctx, o_sete, rECX);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rECX); // Store int to target
-- 
2.43.0


From 7ad5379f3626c9b2e67588997d4a8335630d0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 09/59] fix: function with too many live values is a
 compilation error and not an assertion failure

---
 NULLC/InstructionTreeRegVmLower.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index f8280ef..104634a 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -99,6 +99,10 @@ unsigned char RegVmLoweredFunction::GetRegister()
 		if(nextRegister == 0)
 		{
 			hasRegisterOverflow = true;
+
+			// Compilation will fail, but register user tracking must stay balanced until then
+			registerUsers[255]++;
+
 			return 255;
 		}
 
-- 
2.43.0


From 3f1deab7c980ea04dc3e8aefb6b953e55d427cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 10/59] fix: JIT forgets that a register holds a copy of an XMM
 register when that register is overwritten

---
 NULLC/CodeGen_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 087239a..b0b156f 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -207,7 +207,7 @@ void CodeGenGenericContext::InvalidateDependand(x86Reg dreg)
 
 	for(unsigned i = 0; i < rXmmRegCount; i++)
 	{
-		if(xmmReg[i].type == x86Argument::argPtr && (xmmReg[i].ptrBase == dreg || genReg[i].ptrIndex == dreg))
+		if(xmmReg[i].type == x86Argument::argPtr && (xmmReg[i].ptrBase == dreg || xmmReg[i].ptrIndex == dreg))
 			xmmReg[i].type = x86Argument::argPtrLabel;
 	}
 
@@ -253,7 +253,7 @@ void CodeGenGenericContext::InvalidateDependand(x86XmmReg dreg)
 {
 	for(unsigned i = 0; i < rXmmRegCount; i++)
 	{
-		if(xmmReg[i].type == x86Argument::argReg && xmmReg[i].xmmArg == dreg)
+		if(xmmReg[i].type == x86Argument::argXmmReg && xmmReg[i].xmmArg == dreg)
 			xmmReg[i].type = x86Argument::argPtrLabel;
 	}
 
-- 
2.43.0


From c571b6dc3a2785c1bf4fdc68ac69c11008352211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 11/59] fix: values of assignment, prefix increment and
 function call expressions are in range of their char/short/float/bool type

---
 NULLC/InstructionTreeVm.cpp | 88 +++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 7b560b3..3d6af24 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -2664,28 +2664,83 @@ VmValue* CompileVmArray(ExpressionContext &ctx, VmModule *module, ExprArray *nod
 	return CheckType(ctx, node, inst);
 }
 
-VmValue* CompileVmPreModify(ExpressionContext &ctx, VmModule *module, ExprPreModify *node)
+// Types that are smaller than the register they are kept in lose a part of the value when it is placed in memory
+bool IsChangedByStore(ExpressionContext &ctx, TypeBase *type, VmValue *value)
 {
-	VmValue *address = CompileVm(ctx, module, node->value);
+	if(type != ctx.typeChar && type != ctx.typeShort && type != ctx.typeFloat)
+		return false;
 
-	TypeRef *refType = getType<TypeRef>(node->value->type);
+	if(VmConstant *constant = getType<VmConstant>(value))
+	{
+		if(type == ctx.typeChar)
+			return constant->iValue != int((signed char)constant->iValue);
 
-	assert(refType);
+		if(type == ctx.typeShort)
+			return constant->iValue != int(short(constant->iValue));
 
-	VmValue *value = CreateLoad(ctx, module, node->source, refType->subType, address, 0);
+		return constant->dValue != double(float(constant->dValue));
+	}
+
+	if(VmInstruction *inst = getType<VmInstruction>(value))
+		return inst->cmd != GetLoadInstruction(ctx, type);
+
+	return true;
+}
+
+// Value of the expression that stores into an object is the value of that object
+VmValue* CreateStoreResult(ExpressionContext &ctx, VmModule *module, SynBase *source, TypeBase *type, VmValue *address, VmValue *value)
+{
+	if(IsChangedByStore(ctx, type, value))
+		return CreateLoad(ctx, module, source, type, address, 0);
+
+	return value;
+}
+
+// Value of the function result is in the range of the function return type
+VmValue* CreateReturnValue(ExpressionContext &ctx, VmModule *module, SynBase *source, TypeBase *type, VmValue *value)
+{
+	if(!IsChangedByStore(ctx, type, value))
+		return value;
+
+	VmConstant *address = CreateAlloca(ctx, module, source, type, "return", true);
+
+	CreateStore(ctx, module, source, type, address, value, 0);
+
+	return CreateLoad(ctx, module, source, type, address, 0);
+}
 
+VmValue* CreateModifiedValue(ExpressionContext &ctx, VmModule *module, SynBase *source, TypeBase *type, VmValue *value, bool isIncrement)
+{
 	if(value->type == VmType::Int)
-		value = CreateAdd(module, node->source, value, CreateConstantInt(module->allocator, node->source, node->isIncrement ? 1 : -1));
+		value = CreateAdd(module, source, value, CreateConstantInt(module->allocator, source, isIncrement ? 1 : -1));
 	else if(value->type == VmType::Double)
-		value = CreateAdd(module, node->source, value, CreateConstantDouble(module->allocator, node->source, node->isIncrement ? 1.0 : -1.0));
+		value = CreateAdd(module, source, value, CreateConstantDouble(module->allocator, source, isIncrement ? 1.0 : -1.0));
 	else if(value->type == VmType::Long)
-		value = CreateAdd(module, node->source, value, CreateConstantLong(module->allocator, node->source, node->isIncrement ? 1ll : -1ll));
+		value = CreateAdd(module, source, value, CreateConstantLong(module->allocator, source, isIncrement ? 1ll : -1ll));
 	else
 		assert("!unknown type");
 
+	if(type == ctx.typeBool)
+		value = CreateCompareNotEqual(module, source, value, CreateConstantInt(module->allocator, source, 0));
+
+	return value;
+}
+
+VmValue* CompileVmPreModify(ExpressionContext &ctx, VmModule *module, ExprPreModify *node)
+{
+	VmValue *address = CompileVm(ctx, module, node->value);
+
+	TypeRef *refType = getType<TypeRef>(node->value->type);
+
+	assert(refType);
+
+	VmValue *value = CreateLoad(ctx, module, node->source, refType->subType, address, 0);
+
+	value = CreateModifiedValue(ctx, module, node->source, refType->subType, value, node->isIncrement);
+
 	CreateStore(ctx, module, node->source, refType->subType, address, value, 0);
 
-	return CheckType(ctx, node, value);
+	return CheckType(ctx, node, CreateStoreResult(ctx, module, node->source, refType->subType, address, value));
 }
 
 VmValue* CompileVmPostModify(ExpressionContext &ctx, VmModule *module, ExprPostModify *node)
@@ -2699,14 +2754,7 @@ VmValue* CompileVmPostModify(ExpressionContext &ctx, VmModule *module, ExprPostM
 	VmValue *value = CreateLoad(ctx, module, node->source, refType->subType, address, 0);
 	VmValue *result = value;
 
-	if(value->type == VmType::Int)
-		value = CreateAdd(module, node->source, value, CreateConstantInt(module->allocator, node->source, node->isIncrement ? 1 : -1));
-	else if(value->type == VmType::Double)
-		value = CreateAdd(module, node->source, value, CreateConstantDouble(module->allocator, node->source, node->isIncrement ? 1.0 : -1.0));
-	else if(value->type == VmType::Long)
-		value = CreateAdd(module, node->source, value, CreateConstantLong(module->allocator, node->source, node->isIncrement ? 1ll : -1ll));
-	else
-		assert("!unknown type");
+	value = CreateModifiedValue(ctx, module, node->source, refType->subType, value, node->isIncrement);
 
 	CreateStore(ctx, module, node->source, refType->subType, address, value, 0);
 
@@ -3330,7 +3378,7 @@ VmValue* CompileVmAssignment(ExpressionContext &ctx, VmModule *module, ExprAssig
 
 	CreateStore(ctx, module, node->source, node->rhs->type, address, initializer, 0);
 
-	return CheckType(ctx, node, initializer);
+	return CheckType(ctx, node, CreateStoreResult(ctx, module, node->source, node->rhs->type, address, initializer));
 }
 
 VmValue* CompileVmMemberAccess(ExpressionContext &ctx, VmModule *module, ExprMemberAccess *node)
@@ -3375,6 +3423,8 @@ VmValue* CompileVmReturn(ExpressionContext &ctx, VmModule *module, ExprReturn *n
 {
 	VmValue *value = CompileVm(ctx, module, node->value);
 
+	value = CreateReturnValue(ctx, module, node->source, node->value->type, value);
+
 	if(node->coroutineStateUpdate)
 		CompileVm(ctx, module, node->coroutineStateUpdate);
 
@@ -3391,6 +3441,8 @@ VmValue* CompileVmYield(ExpressionContext &ctx, VmModule *module, ExprYield *nod
 {
 	VmValue *value = CompileVm(ctx, module, node->value);
 
+	value = CreateReturnValue(ctx, module, node->source, node->value->type, value);
+
 	if(node->coroutineStateUpdate)
 		CompileVm(ctx, module, node->coroutineStateUpdate);
 
-- 
2.43.0


From 738ae61fbc56a0e991cfa61e20d4870839c5c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 12/59] fix: result of a bool shift is an int

---
 NULLC/ExpressionTree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index ec772d1..e558cc9 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -3143,8 +3143,10 @@ ExprBase* CreateBinaryOp(ExpressionContext &ctx, SynBase *source, SynBinaryOpTyp
 
 	ExprBase *result = new (ctx.get<ExprBinaryOp>()) ExprBinaryOp(source, resultType, op, lhs, rhs);
 
-	// Arithmetic operation on bool results in an int
-	if(lhs->type == ctx.typeBool && !binaryOp && !comparisonOp && !logicalOp)
+	// Arithmetic and shift operations on bool result in an int
+	bool shiftOp = op == SYN_BINARY_OP_SHL || op == SYN_BINARY_OP_SHR;
+
+	if(lhs->type == ctx.typeBool && (!binaryOp || shiftOp) && !comparisonOp && !logicalOp)
 		return CreateCast(ctx, source, result, ctx.typeInt, false);
 
 	return result;
-- 
2.43.0


From e5de5b19eb431d5e8b9bbcb88a11fc5e8b822252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 13/59] fix: JIT signal handlers are installed by every top
 level call (crash in a call made after nullcClearError)

---
 NULLC/Executor_X86.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52b9b90..81937cb 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -988,7 +988,8 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		struct sigaction sigTRAP;
 		struct sigaction sigSEGV;
 
-		if(firstRun)
+		// Install signal handlers only from top-level Run
+		if(lastFinalReturn == 0)
 		{
 			sa.sa_sigaction = NULLC::HandleError;
 			sigemptyset(&sa.sa_mask);
-- 
2.43.0


From 2a41030b8bb6690cdb230700544f265f87a689a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 14/59] fix: constant evaluation of a return or continue inside
 a switch does not fall through into the following cases

---
 NULLC/ExpressionEval.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index 84a59e1..c9843ef 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -3030,6 +3030,10 @@ ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
 
 			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
 		}
+
+		// On continue of an outer loop or on return, exit without falling through into the next case
+		if(frame->continueDepth || frame->returnValue)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
 	}
 
 	if(expression->defaultBlock)
-- 
2.43.0


From 32bd8aa6f08d42262cef9dbaec28b8d7c8bb683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 15/59] fix: instruction evaluator compares the address of a
 variable with the same address loaded from memory as equal

---
 NULLC/InstructionTreeVmEval.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index a7b6b4c..ec9ddce 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -449,6 +449,21 @@ void CopyConstantRaw(InstructionVMEvalContext &ctx, char *dst, unsigned dstSize,
 	}
 }
 
+bool IsSamePointer(InstructionVMEvalContext &ctx, VmConstant *lhs, VmConstant *rhs)
+{
+	if(lhs->container == rhs->container)
+		return lhs->iValue == rhs->iValue;
+
+	// Address of a variable can also be an address loaded from memory that has no container information
+	unsigned long long lhsAddress = 0;
+	CopyConstantRaw(ctx, (char*)&lhsAddress, sizeof(lhsAddress), lhs, lhs->type.size);
+
+	unsigned long long rhsAddress = 0;
+	CopyConstantRaw(ctx, (char*)&rhsAddress, sizeof(rhsAddress), rhs, rhs->type.size);
+
+	return lhsAddress == rhsAddress;
+}
+
 VmConstant* EvaluateOperand(InstructionVMEvalContext &ctx, VmValue *value)
 {
 	InstructionVMEvalContext::StackFrame *frame = ctx.stackFrames.back();
@@ -1079,7 +1094,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		else if(arguments[0]->type == VmType::Long)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue == arguments[1]->lValue);
 		else if(arguments[0]->type.type == VM_TYPE_POINTER)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue == arguments[1]->iValue && arguments[0]->container == arguments[1]->container);
+			return CreateConstantInt(ctx.allocator, NULL, IsSamePointer(ctx, arguments[0], arguments[1]));
 
 		break;
 	case VM_INST_NOT_EQUAL:
@@ -1109,7 +1124,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		else if(arguments[0]->type == VmType::Long)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue != arguments[1]->lValue);
 		else if(arguments[0]->type.type == VM_TYPE_POINTER)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue != arguments[1]->iValue || arguments[0]->container != arguments[1]->container);
+			return CreateConstantInt(ctx.allocator, NULL, !IsSamePointer(ctx, arguments[0], arguments[1]));
 
 		break;
 	case VM_INST_SHL:
@@ -1356,7 +1371,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			else if(arguments[0]->type == VmType::Long)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue == rhs->lValue);
 			else if(arguments[0]->type.type == VM_TYPE_POINTER)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue == rhs->iValue && arguments[0]->container == rhs->container);
+				return CreateConstantInt(ctx.allocator, NULL, IsSamePointer(ctx, arguments[0], rhs));
 		}
 		else
 		{
@@ -1376,7 +1391,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			else if(arguments[0]->type == VmType::Long)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue != rhs->lValue);
 			else if(arguments[0]->type.type == VM_TYPE_POINTER)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue != rhs->iValue || arguments[0]->container != rhs->container);
+				return CreateConstantInt(ctx.allocator, NULL, !IsSamePointer(ctx, arguments[0], rhs));
 		}
 		else
 		{
-- 
2.43.0


From 3a10861f053f0f2ed2e96bbfe5738d18718ff671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 16/59] fix: restore error handler of the outer call after a
 hardware exception in a nested JIT call

---
 NULLC/Executor_X86.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 81937cb..2ba87df 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1005,13 +1005,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		NULLC::JmpBufData data;
 		NULLC::copyMemory(data.data, NULLC::errorHandler, sizeof(sigjmp_buf));
 
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 		if(!(errorCode = sigsetjmp(NULLC::errorHandler, 1)))
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1022,14 +1022,15 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		else
 		{
 			resultType = rvrError;
 		}
 
+		// A signal skips the code above, handler of the outer call has to be restored in both cases
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
+
 		// Disable signal handlers only from top-level Run
 		if(lastFinalReturn == 0)
 		{
-- 
2.43.0


From e8ebb0ca6824b464ab544eb84c5b2b01a03065e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 17/59] fix: constant evaluation of an integer to float
 conversion keeps the precision of the runtime conversion

---
 NULLC/ExpressionEval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index c9843ef..eb20ed9 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1127,7 +1127,7 @@ ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
 			if(TryTakeDouble(value, result))
 			{
 				if(expression->type == ctx.ctx.typeFloat)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, result));
 
 				if(expression->type == ctx.ctx.typeDouble)
 					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
-- 
2.43.0


From 33bec285c345ee68944fe9df8703f6248c64131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:41 +0000
Subject: [PATCH 18/59] fix: constant evaluation of integer negation wraps
 around as the runtime operation

---
 NULLC/ExpressionEval.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index eb20ed9..beeb8b0 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1395,7 +1395,12 @@ ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
 			case SYN_UNARY_OP_PLUS:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+				result = (long long)(0ull - (unsigned long long)result);
+
+				if(expression->type == ctx.ctx.typeInt)
+					result = (int)result;
+
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_BIT_NOT:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
 			case SYN_UNARY_OP_LOGICAL_NOT:
-- 
2.43.0


From 6df9c64196ddcb89fe50cc5216bb1227ce825082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 19/59] fix: control flow optimization keeps phi inputs in step
 with redirected jumps

---
 NULLC/InstructionTreeVm.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 3d6af24..368eca6 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5096,6 +5096,21 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmInstructi
 	}
 }
 
+void RemovePhiIncoming(VmInstruction *phi, unsigned index)
+{
+	VmValue *option = phi->arguments[index];
+	VmValue *edge = phi->arguments[index + 1];
+
+	phi->arguments[index] = phi->arguments[phi->arguments.size() - 2];
+	phi->arguments[index + 1] = phi->arguments[phi->arguments.size() - 1];
+
+	phi->arguments.pop_back();
+	phi->arguments.pop_back();
+
+	option->RemoveUse(phi);
+	edge->RemoveUse(phi);
+}
+
 void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValue *value)
 {
 	(void)ctx;
@@ -5196,13 +5211,16 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
 
 						if(option->cmd != VM_INST_LOAD_IMMEDIATE)
+						{
+							i += 2;
 							continue;
+						}
 
 						VmConstant *condition = getType<VmConstant>(option->arguments[0]);
 
@@ -5216,8 +5234,14 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 							ReplaceValue(module, terminator, terminator->arguments[0], target);
 
+							RemovePhiIncoming(phi, i);
+
 							module->controlFlowSimplifications++;
 						}
+						else
+						{
+							i += 2;
+						}
 					}
 				}
 			}
@@ -5229,7 +5253,7 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
@@ -5241,6 +5265,12 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 							assert(terminator->arguments[0] == curr);
 
 							ChangeInstructionTo(module, terminator, VM_INST_RETURN, option, NULL, NULL, NULL, NULL, &module->controlFlowSimplifications);
+
+							RemovePhiIncoming(phi, i);
+						}
+						else
+						{
+							i += 2;
 						}
 					}
 				}
-- 
2.43.0


From 2e4821b6f07a4b02c7244c77062d8793a79bc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 20/59] fix: unreachable instructions are removed before blocks
 are merged together

---
 NULLC/InstructionTreeVm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 368eca6..f312c4f 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5117,6 +5117,7 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 	if(VmFunction *function = getType<VmFunction>(value))
 	{
+		// Remove unreachable instructions from every block before blocks are merged together
 		for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 		{
 			// Remove any instructions after a branch
@@ -5133,7 +5134,10 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 					break;
 				}
 			}
+		}
 
+		for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+		{
 			// Merge together blocks if a block A ends with a branch to block B and block B only incoming blocks is block A
 			VmInstruction *currLastInst = curr->lastInstruction;
 
-- 
2.43.0


From aa193b391792ec2572fc974aa42a35b85cc93243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 21/59] fix: elements of arrays made by auto_array, duplicate
 and array return are traced by garbage collector

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 NULLC/Executor_RegVm.cpp   | 2 +-
 NULLC/StdLib.cpp           | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 6f73895..9dd2b90 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2344,7 +2344,7 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(ctx.exTypes[type.subType].size * length, type.subType);
+			char *copy = NULLC::AllocArray(ctx.exTypes[type.subType].size, length, type.subType).ptr;
 			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 0dcf521..39ff989 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1671,7 +1671,7 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(exLinker->exTypes[type.subType].size * length, type.subType);
+			char *copy = NULLC::AllocArray(exLinker->exTypes[type.subType].size, length, type.subType).ptr;
 			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
 			vmStorePointer(returnValuePtr, copy);
 		}
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..af0552a 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -877,7 +877,7 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 	}
 	dst->typeID = src.typeID;
 	dst->len = src.len;
-	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	dst->ptr = NULLC::AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID).ptr;
 
 	if(src.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
@@ -1445,7 +1445,7 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 
 	arr->typeID = type;
 	arr->len = count;
-	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->ptr = AllocArray(linker->exTypes[type].size, count, type).ptr;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
-- 
2.43.0


From b66028c6f824e6321dd02c7540f7971f771363a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 22/59] fix: garbage collection is enabled again after JIT
 copies a returned stack object

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9dd2b90..ace9480 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2357,7 +2357,7 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
 
-		NULLC::SetCollectMemory(false);
+		NULLC::SetCollectMemory(true);
 	}
 }
 
-- 
2.43.0


From d29db6a6a8aaefd33efbb608032f2221ab6b2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 23/59] fix: structures with pointers are kept in consecutive
 registers so that garbage collector finds them

---
 NULLC/InstructionTreeRegVmLower.cpp | 63 +++++++++++++++++++++++++++++
 NULLC/InstructionTreeRegVmLower.h   |  1 +
 2 files changed, 64 insertions(+)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 104634a..ef22d20 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -116,6 +116,49 @@ unsigned char RegVmLoweredFunction::GetRegister()
 	return reg;
 }
 
+bool RegVmLoweredFunction::TryGetConsecutiveRegisters(unsigned count, unsigned char &first)
+{
+	unsigned firstUnused = nextRegister == 0 ? 256 : nextRegister;
+
+	for(unsigned start = rvrrCount; start + count <= 256; start++)
+	{
+		unsigned matched = 0;
+
+		while(matched < count && (start + matched >= firstUnused || freedRegisters.contains((unsigned char)(start + matched))))
+			matched++;
+
+		if(matched != count)
+			continue;
+
+		for(unsigned i = 0; i < freedRegisters.size();)
+		{
+			if(freedRegisters[i] >= start && freedRegisters[i] < start + count)
+			{
+				freedRegisters[i] = freedRegisters.back();
+				freedRegisters.pop_back();
+			}
+			else
+			{
+				i++;
+			}
+		}
+
+		if(start + count > firstUnused)
+			nextRegister = (unsigned char)(start + count);
+
+		for(unsigned i = 0; i < count; i++)
+		{
+			assert(registerUsers[start + i] == 0);
+			registerUsers[start + i]++;
+		}
+
+		first = (unsigned char)start;
+		return true;
+	}
+
+	return false;
+}
+
 void RegVmLoweredFunction::FreeRegister(unsigned char reg)
 {
 	assert(registerUsers[reg] != 0);
@@ -184,8 +227,28 @@ unsigned char RegVmLoweredFunction::AllocateRegister(VmValue *value, unsigned in
 	if(instruction->regVmAllocated)
 		return instruction->regVmRegisters[index];
 
+	if(index < instruction->regVmRegisters.size())
+		return instruction->regVmRegisters[index];
+
 	assert(instruction->regVmRegisters.size() == index);
 
+	// Pointers inside structures might not be aligned to the register size, garbage collector can find them only if parts of the structure are in consecutive registers
+	if(index == 0 && instruction->type.type == VM_TYPE_STRUCT && instruction->type.size > 8 && instruction->type.structType->hasPointers)
+	{
+		unsigned count = (instruction->type.size + 4) / 8;
+		unsigned char first = 0;
+
+		if(TryGetConsecutiveRegisters(count, first))
+		{
+			for(unsigned i = 0; i < count; i++)
+				instruction->regVmRegisters.push_back((unsigned char)(first + i));
+
+			return first;
+		}
+
+		hasRegisterOverflow = true;
+	}
+
 	instruction->regVmRegisters.push_back(GetRegister());
 
 	return instruction->regVmRegisters.back();
diff --git a/NULLC/InstructionTreeRegVmLower.h b/NULLC/InstructionTreeRegVmLower.h
index 859d52e..78e30c0 100644
--- a/NULLC/InstructionTreeRegVmLower.h
+++ b/NULLC/InstructionTreeRegVmLower.h
@@ -86,6 +86,7 @@ struct RegVmLoweredFunction
 	}
 
 	unsigned char GetRegister();
+	bool TryGetConsecutiveRegisters(unsigned count, unsigned char &first);
 	void FreeRegister(unsigned char reg);
 
 	void CompleteUse(VmValue *value);
-- 
2.43.0


From 8ecd643fe83b7e5cdcc7a68138a64c34d7a608be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 24/59] fix: external function context is traced by garbage
 collector

---
 NULLC/Executor_Common.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a193582..0279a36 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -942,10 +942,6 @@ namespace GC
 
 		const ExternFuncInfo &func = NULLC::commonLinker->exFunctions[fPtr->id];
 
-		// External functions shouldn't be checked
-		if(func.regVmAddress == -1)
-			return;
-
 		// If context is "this" pointer
 		if(func.contextType != ~0u)
 			CheckPointer((char*)&fPtr->context);
-- 
2.43.0


From 9fd74cd2712a365f20f04b8c302aef2d89b2522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 25/59] fix: assertions on instruction text buffer size are not
 inverted

---
 NULLC/Instruction_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Instruction_X86.cpp b/NULLC/Instruction_X86.cpp
index 32bafc6..55e225f 100644
--- a/NULLC/Instruction_X86.cpp
+++ b/NULLC/Instruction_X86.cpp
@@ -207,7 +207,7 @@ int x86Argument::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bufSi
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "%lld", (long long)imm64Arg);
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
 
@@ -274,6 +274,6 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 		*curr = 0;
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
-- 
2.43.0


From 7f387b3dd3390f35ec85a1d1394bcfb462726725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 26/59] fix: JIT does not modify frame register when frame
 address is advanced in place

---
 NULLC/CodeGenRegVm_X86.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index ace9480..07ccf36 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -3148,6 +3148,13 @@ void GenCodeCmdAddImml(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		}
 		else
 		{
+			// Frame and constant base registers might hold the same address, but they cannot be modified
+			if(sourceReg == rR14 || sourceReg == rR15)
+			{
+				EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, rRAX, sQWORD, rREG, cmd.rA * 8); // Load value
+				sourceReg = rRAX;
+			}
+
 			ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 			EMIT_OP_REG_NUM(ctx.ctx, o_add64, sourceReg, cmd.argument); // Modify inplace
-- 
2.43.0


From 2a26886c56825f5bc9f1d6f290b1debc06d49544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:03 +0000
Subject: [PATCH 27/59] fix: returned stack object is copied with the type and
 the size of the object

---
 NULLC/CodeGenRegVm_X86.cpp | 10 ++++++++--
 NULLC/Executor_RegVm.cpp   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 07ccf36..7762a95 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2350,9 +2350,15 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			unsigned objTypeId = type.subType;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+			// Copy the whole object when it is returned by a pointer to a base class
+			if(ctx.exTypes[objTypeId].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				objTypeId = *(unsigned*)ptr;
+
+			unsigned objSize = ctx.exTypes[objTypeId].size;
+
+			char *copy = (char*)NULLC::AllocObject(objSize, objTypeId);
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 39ff989..b0f3907 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1677,9 +1677,15 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			unsigned objTypeId = type.subType;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+			// Copy the whole object when it is returned by a pointer to a base class
+			if(exLinker->exTypes[objTypeId].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				objTypeId = *(unsigned*)ptr;
+
+			unsigned objSize = exLinker->exTypes[objTypeId].size;
+
+			char *copy = (char*)NULLC::AllocObject(objSize, objTypeId);
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
-- 
2.43.0


From 755564481d65d914645020f54e3a6c9853db2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 28/59] fix: collection started from a finalizer does not run
 the same finalizers again

---
 NULLC/StdLib.cpp | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index af0552a..14edc5a 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -42,6 +42,7 @@ namespace NULLC
 {
 	static Linker	*linker = NULL;
 	FastVector<NULLCRef>	finalizeList;
+	FastVector<NULLCRef>	finalizeActiveList;
 
 	static uintptr_t OBJECT_VISIBLE		= 1 << 0;
 	static uintptr_t OBJECT_FREED		= 1 << 1;
@@ -393,6 +394,9 @@ namespace NULLC
 	void CollectUnmarkedBlock(Range& curr);
 	void ClearBlock(Range& curr);
 
+	void MarkFinalizationList(FastVector<NULLCRef>& list);
+	void RunFinalizers();
+
 	double	markTime = 0.0;
 	double	collectTime = 0.0;
 }
@@ -756,6 +760,11 @@ void NULLC::CollectMemory()
 	// Used memory blocks are marked with 1
 	GC::MarkUsedBlocks();
 
+	// Objects that still have to be finalized are in use when collection is started from a finalizer
+	MarkFinalizationList(finalizeActiveList);
+	MarkFinalizationList(finalizeList);
+	GC::MarkPendingRoots();
+
 	// Collect sets of objects to finalize and to potentially free
 	CollectUnmarked();
 
@@ -773,8 +782,29 @@ void NULLC::CollectMemory()
 	if(usedMemory + (usedMemory >> 1) >= collectableMinimum)
 		collectableMinimum <<= 1;
 
-	(void)nullcRunFunction("__finalizeObjects");
+	RunFinalizers();
+}
+
+void NULLC::MarkFinalizationList(FastVector<NULLCRef>& list)
+{
+	for(unsigned i = 0; i < list.size(); i++)
+		GC::CheckPointer((char*)&list[i].ptr);
+}
+
+void NULLC::RunFinalizers()
+{
+	// When collection is started from a finalizer, finalizers of new unreachable objects will run after the next collection
+	if(!finalizeActiveList.empty() || finalizeList.empty())
+		return;
+
+	for(unsigned i = 0; i < finalizeList.size(); i++)
+		finalizeActiveList.push_back(finalizeList[i]);
+
 	finalizeList.clear();
+
+	(void)nullcRunFunction("__finalizeObjects");
+
+	finalizeActiveList.clear();
 }
 
 double NULLC::MarkTime()
@@ -794,8 +824,7 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 void NULLC::ClearBlock(Range& curr)
@@ -824,6 +853,7 @@ void NULLC::ClearMemory()
 	blocksToFree.clear();
 
 	finalizeList.clear();
+	finalizeActiveList.clear();
 }
 
 void NULLC::ResetMemory()
@@ -836,6 +866,7 @@ void NULLC::ResetMemory()
 	blocksToFree.reset();
 
 	finalizeList.reset();
+	finalizeActiveList.reset();
 
 	GC::ResetGC();
 }
@@ -1523,8 +1554,8 @@ void NULLC::AssertCoroutine(NULLCRef f)
 NULLCArray NULLC::GetFinalizationList()
 {
 	NULLCArray arr;
-	arr.ptr = (char*)finalizeList.data;
-	arr.len = finalizeList.size();
+	arr.ptr = (char*)finalizeActiveList.data;
+	arr.len = finalizeActiveList.size();
 	return arr;
 }
 
-- 
2.43.0


From d4872c2df0b23e6f3350b8c984d77c1013b8a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 29/59] fix: allocation over the memory limit also collects
 objects that were only finalized by the first collection

---
 NULLC/StdLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 14edc5a..2524bd4 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -421,6 +421,10 @@ void* NULLC::AllocObject(int size, unsigned type)
 	{
 		CollectMemory();
 
+		// Finalized objects are released by the next collection
+		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+			CollectMemory();
+
 		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
-- 
2.43.0


From 6fa4e2690a97a0dca230547417970850d4e06ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 30/59] fix: pending release lists are cleared when memory is
 finalized without being released

---
 NULLC/StdLib.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 2524bd4..ab88106 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -828,6 +828,17 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
+	// Memory is not released here
+	blocksToFree.clear();
+
+	pool8.objectsToFree.clear();
+	pool16.objectsToFree.clear();
+	pool32.objectsToFree.clear();
+	pool64.objectsToFree.clear();
+	pool128.objectsToFree.clear();
+	pool256.objectsToFree.clear();
+	pool512.objectsToFree.clear();
+
 	RunFinalizers();
 }
 
-- 
2.43.0


From c90c65a53236525f18a4d934c239261fcbd2a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 31/59] fix: closure upvalue data is copied to the position of
 the copy member

---
 NULLC/ExpressionTree.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index e558cc9..96f873f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -2740,7 +2740,7 @@ ExprBase* CreateUpvalueClose(ExpressionContext &ctx, SynBase *source, VariableDa
 	// Two pointers before data
 	unsigned offset = NULLC_PTR_SIZE + NULLC_PTR_SIZE;
 
-	offset += GetAlignmentOffset(offset, variable->type->alignment);
+	offset += GetAlignmentOffset(offset, variable->alignment != 0 ? variable->alignment : variable->type->alignment);
 
 	ExprBase *copyOffset = new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, ctx.typeInt, offset);
 
@@ -4055,8 +4055,12 @@ VariableData* AddFunctionUpvalue(ExpressionContext &ctx, SynBase *source, Functi
 	if(function->upvalueNameSet.contains(data->name->name))
 		index = classType->members.size();
 
-	// Pointer to target variable
-	VariableData *target = AllocateClassMember(ctx, source, 0, ctx.GetReferenceType(data->type), GetFunctionContextMemberName(ctx, data->name->name, InplaceStr("target"), index), true, ctx.uniqueVariableId++);
+	TypeBase *targetType = ctx.GetReferenceType(data->type);
+
+	unsigned copyAlignment = data->alignment != 0 ? data->alignment : data->type->alignment;
+
+	// Pointer to target variable (placed at the alignment of the variable so that the data copy is always found at the same offset from it)
+	VariableData *target = AllocateClassMember(ctx, source, copyAlignment > targetType->alignment ? copyAlignment : 0, targetType, GetFunctionContextMemberName(ctx, data->name->name, InplaceStr("target"), index), true, ctx.uniqueVariableId++);
 
 	classType->members.push_back(new (ctx.get<MemberHandle>()) MemberHandle(NULL, target, NULL));
 
@@ -4066,7 +4070,7 @@ VariableData* AddFunctionUpvalue(ExpressionContext &ctx, SynBase *source, Functi
 	classType->members.push_back(new (ctx.get<MemberHandle>()) MemberHandle(NULL, nextUpvalue, NULL));
 
 	// Copy of the data
-	VariableData *copy = AllocateClassMember(ctx, source, data->alignment, data->type, GetFunctionContextMemberName(ctx, data->name->name, InplaceStr("copy"), index), true, ctx.uniqueVariableId++);
+	VariableData *copy = AllocateClassMember(ctx, source, copyAlignment, data->type, GetFunctionContextMemberName(ctx, data->name->name, InplaceStr("copy"), index), true, ctx.uniqueVariableId++);
 
 	classType->members.push_back(new (ctx.get<MemberHandle>()) MemberHandle(NULL, copy, NULL));
 
-- 
2.43.0


From f6f489fee80f78671b8ff0d6b9b8d0e07f481fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 32/59] fix: native instruction buffer is large enough for
 calls and returns with many values

---
 NULLC/Executor_X86.cpp | 46 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 2ba87df..8b80a8b 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1277,6 +1277,45 @@ void ExecutorX86::ClearNative()
 	codeRunning = false;
 }
 
+namespace
+{
+	// Calls and returns move an arbitrary number of values, each of them takes a few native instructions
+	unsigned GetNativeInstructionLimit(const RegVmCmd &cmd, const unsigned *constants)
+	{
+		const unsigned *microcode = NULL;
+
+		if(cmd.code == rviCall)
+			microcode = constants + ((cmd.rA << 16) | (cmd.rB << 8) | cmd.rC);
+		else if(cmd.code == rviCallPtr)
+			microcode = constants + cmd.argument;
+		else if(cmd.code == rviReturn && cmd.rB != rvrVoid && cmd.rB != rvrError)
+			microcode = constants + cmd.argument + 2; // Skip type id and size
+
+		unsigned limit = 64;
+
+		while(microcode && *microcode != rvmiReturn)
+		{
+			switch(*microcode++)
+			{
+			case rvmiCall:
+				microcode += 2; // Skip result register and type
+				break;
+			case rvmiPushMem:
+			case rvmiPopMem:
+				microcode += 3;
+				break;
+			default:
+				microcode += 1;
+				break;
+			}
+
+			limit += 8;
+		}
+
+		return limit;
+	}
+}
+
 bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 {
 	TRACE_SCOPE("x86", "TranslateToNative");
@@ -1382,8 +1421,11 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 
 		unsigned int currSize = (int)(codeGenCtx->ctx.GetLastInstruction() - instList.data);
 		instList.count = currSize;
-		if(currSize + 64 >= instList.max)
-			instList.grow(currSize + 64);
+
+		unsigned nativeLimit = GetNativeInstructionLimit(cmd, codeGenCtx->exRegVmConstants);
+
+		if(currSize + nativeLimit >= instList.max)
+			instList.grow(currSize + nativeLimit);
 
 		codeGenCtx->ctx.SetLastInstruction(instList.data + currSize, instList.data);
 
-- 
2.43.0


From e31dba267c72ba25a7a2fd5df33c62fd7e201a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 33/59] fix: call stack entries are matched to functions as
 return addresses

---
 NULLC/Executor_Common.cpp | 8 +++++---
 NULLC/Executor_X86.cpp    | 4 ++--
 NULLC/nullc.cpp           | 2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 0279a36..12e9d8e 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -148,10 +148,11 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 
 	char *source = nullcDebugSource();
 
+	// Call stack holds addresses of the instructions that follow the active ones
 	int funcID = -1;
 	for(unsigned int i = 0; i < exFunctionsSize; i++)
 	{
-		if(address >= exFunctions[i].regVmAddress && address < (exFunctions[i].regVmAddress + exFunctions[i].regVmCodeSize))
+		if(address > exFunctions[i].regVmAddress && address <= (exFunctions[i].regVmAddress + exFunctions[i].regVmCodeSize))
 			funcID = i;
 	}
 
@@ -607,7 +608,7 @@ void nullcDumpStackData()
 
 		printf("%s", buf);
 
-		ExternFuncInfo *func = nullcDebugConvertAddressToFunction(address, codeFunctions, functionCount);
+		ExternFuncInfo *func = nullcDebugConvertAddressToFunction(address - 1, codeFunctions, functionCount);
 
 		unsigned indent = 1;
 
@@ -1088,9 +1089,10 @@ void GC::MarkUsedBlocks()
 		}
 		else
 		{
+			// Call stack holds addresses of the instructions that follow the active ones
 			for(unsigned i = 0; i < NULLC::commonLinker->exFunctions.size(); i++)
 			{
-				if(address >= functions[i].regVmAddress && address < (functions[i].regVmAddress + functions[i].regVmCodeSize))
+				if(address > functions[i].regVmAddress && address <= (functions[i].regVmAddress + functions[i].regVmCodeSize))
 					funcID = i;
 			}
 
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 8b80a8b..3101e6b 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -143,7 +143,7 @@ namespace NULLC
 	{
 		if(instruction != ~0u)
 		{
-			currExecutor->vmState.callStackTop->instruction = instruction;
+			currExecutor->vmState.callStackTop->instruction = instruction + 1;
 			currExecutor->vmState.callStackTop++;
 		}
 	}
@@ -222,7 +222,7 @@ namespace NULLC
 				return EXCEPTION_CONTINUE_SEARCH;
 			//printf("Returning execution (%d)\n", currExecutor->breakInstructions[index].instIndex);
 
-			currExecutor->vmState.callStackTop->instruction = currExecutor->breakInstructions[index].instIndex;
+			currExecutor->vmState.callStackTop->instruction = currExecutor->breakInstructions[index].instIndex + 1;
 			currExecutor->vmState.callStackTop++;
 
 			/*unsigned command = */currExecutor->breakFunction(currExecutor->breakFunctionContext, currExecutor->breakInstructions[index].instIndex);
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5e2b026..6052bcb 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -2231,7 +2231,7 @@ unsigned nullcDebugGetReversedStackDataBase(unsigned framePos)
 		unsigned functionCount = 0;
 		ExternFuncInfo *functions = nullcDebugFunctionInfo(&functionCount);
 
-		if(ExternFuncInfo *targetFunction = nullcDebugConvertAddressToFunction(instruction, functions, functionCount))
+		if(ExternFuncInfo *targetFunction = nullcDebugConvertAddressToFunction(instruction - 1, functions, functionCount))
 			offset += (targetFunction->stackSize + 0xf) & ~0xf;
 		else
 			offset += (linker->globalVarSize + 0xf) & ~0xf;
-- 
2.43.0


From 42322a5055d1d8aee904cec738a852548abf528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 34/59] fix: collector root lists are available before the
 first collection

---
 NULLC/Executor_Common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 12e9d8e..ee20b93 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -718,7 +718,7 @@ namespace GC
 	unsigned int	autoArrayName = NULLC::GetStringHash("auto[]");
 
 	FastVector<char*> rootsA, rootsB;
-	FastVector<char*> *curr = NULL, *next = NULL;
+	FastVector<char*> *curr = &rootsA, *next = &rootsB;
 
 	HashMap<int> functionIDs;
 
-- 
2.43.0


From 274a6cf9ca80e82dd64d4ebd8061a856da0bc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:04 +0000
Subject: [PATCH 35/59] fix: copy of a returned local object is allocated with
 collection enabled and reports running out of memory

---
 NULLC/CodeGenRegVm_X86.cpp | 76 ++++++++++++++++++++++----------------
 NULLC/Executor_RegVm.cpp   | 30 +++++++++++----
 NULLC/Executor_RegVm.h     |  2 +-
 3 files changed, 69 insertions(+), 39 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 7762a95..9bf720e 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2326,6 +2326,10 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 {
 	CodeGenRegVmContext &ctx = *vmState->ctx;
 
+	// Allocation can start a garbage collection, which has to be able to see the frame of the function that returns
+	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
+	vmState->callStackTop++;
+
 	uintptr_t frameEnd = uintptr_t(vmState->dataStackEnd);
 
 	char *returnValuePtr = (char*)vmState->tempStackArrayBase;
@@ -2335,9 +2339,6 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 
 	if(uintptr_t(ptr) >= frameBase && uintptr_t(ptr) <= frameEnd)
 	{
-		// Don't want to trigger GC at this point
-		NULLC::SetCollectMemory(false);
-
 		ExternTypeInfo &type = ctx.exTypes[typeId];
 
 		if(type.arrSize == ~0u)
@@ -2345,8 +2346,15 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = NULLC::AllocArray(ctx.exTypes[type.subType].size, length, type.subType).ptr;
+
+			if(!copy)
+				longjmp(vmState->errorHandler, 1);
+
 			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
+
+			// Finalizers called by the garbage collector could overwrite the temporary stack
 			memcpy(returnValuePtr, &copy, sizeof(copy));
+			memcpy(returnValuePtr + sizeof(copy), &length, sizeof(length));
 		}
 		else
 		{
@@ -2359,12 +2367,16 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned objSize = ctx.exTypes[objTypeId].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, objTypeId);
+
+			if(!copy)
+				longjmp(vmState->errorHandler, 1);
+
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
-
-		NULLC::SetCollectMemory(true);
 	}
+
+	vmState->callStackTop--;
 }
 
 void ErrorNoReturnWrap(CodeGenRegVmStateContext *vmState)
@@ -2399,19 +2411,6 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		return;
 	}
 
-	if(unsigned functionId = ctx.currFunctionId)
-	{
-		ExternFuncInfo &target = ctx.exFunctions[functionId];
-
-		unsigned stackSize = (target.stackSize + 0xf) & ~0xf;
-
-		// Restore frame top
-		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub64, sQWORD, rR13, nullcOffsetOf(ctx.vmState, dataStackTop), stackSize); // vmState->dataStackTop -= stackSize;
-
-		// Restore register top
-		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub64, sQWORD, rR13, nullcOffsetOf(ctx.vmState, regFileLastTop), target.regVmRegisters * 8); // vmState->regFileLastTop -= target.regVmRegisters;
-	}
-
 	if(cmd.rB != rvrVoid)
 	{
 		unsigned *microcode = ctx.exRegVmConstants + cmd.argument;
@@ -2479,6 +2478,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		if(cmd.rC)
 		{
 			EMIT_OP_REG_NUM64(ctx.ctx, o_mov64, rArg1, uintptr_t(ctx.vmState));
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->callInstructionPos) - uintptr_t(ctx.vmState)), ctx.currInstructionPos);
 			EMIT_OP_REG_REG(ctx.ctx, o_mov64, rArg2, rR15);
 			EMIT_OP_REG_NUM(ctx.ctx, o_mov, rArg3, typeId);
 			EMIT_REG_READ(ctx.ctx, rArg2);
@@ -2487,6 +2487,19 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		}
 	}
 
+	if(unsigned functionId = ctx.currFunctionId)
+	{
+		ExternFuncInfo &target = ctx.exFunctions[functionId];
+
+		unsigned stackSize = (target.stackSize + 0xf) & ~0xf;
+
+		// Restore frame top
+		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub64, sQWORD, rR13, nullcOffsetOf(ctx.vmState, dataStackTop), stackSize); // vmState->dataStackTop -= stackSize;
+
+		// Restore register top
+		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub64, sQWORD, rR13, nullcOffsetOf(ctx.vmState, regFileLastTop), target.regVmRegisters * 8); // vmState->regFileLastTop -= target.regVmRegisters;
+	}
+
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 	ctx.ctx.KillLateUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
@@ -2504,19 +2517,6 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		return;
 	}
 
-	if(unsigned functionId = ctx.currFunctionId)
-	{
-		ExternFuncInfo &target = ctx.exFunctions[functionId];
-
-		unsigned stackSize = (target.stackSize + 0xf) & ~0xf;
-
-		// Restore frame top
-		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub, sDWORD, uintptr_t(&ctx.vmState->dataStackTop), stackSize); // vmState->dataStackTop -= stackSize;
-
-		// Restore register top
-		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub, sDWORD, uintptr_t(&ctx.vmState->regFileLastTop), target.regVmRegisters * 8); // vmState->regFileLastTop -= target.regVmRegisters;
-	}
-
 	if(cmd.rB != rvrVoid)
 	{
 		unsigned *microcode = ctx.exRegVmConstants + cmd.argument;
@@ -2576,6 +2576,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		// Checked return value
 		if(cmd.rC)
 		{
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, uintptr_t(&ctx.vmState->callInstructionPos), ctx.currInstructionPos);
 			EMIT_OP_NUM(ctx.ctx, o_push, typeId);
 			EMIT_OP_REG(ctx.ctx, o_push, rESI);
 			EMIT_OP_NUM(ctx.ctx, o_push, uintptr_t(ctx.vmState));
@@ -2584,6 +2585,19 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		}
 	}
 
+	if(unsigned functionId = ctx.currFunctionId)
+	{
+		ExternFuncInfo &target = ctx.exFunctions[functionId];
+
+		unsigned stackSize = (target.stackSize + 0xf) & ~0xf;
+
+		// Restore frame top
+		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub, sDWORD, uintptr_t(&ctx.vmState->dataStackTop), stackSize); // vmState->dataStackTop -= stackSize;
+
+		// Restore register top
+		EMIT_OP_RPTR_NUM(ctx.ctx, o_sub, sDWORD, uintptr_t(&ctx.vmState->regFileLastTop), target.regVmRegisters * 8); // vmState->regFileLastTop -= target.regVmRegisters;
+	}
+
 	EMIT_OP_REG_NUM(ctx.ctx, o_mov, rEAX, cmd.rB);
 	EMIT_OP_REG(ctx.ctx, o_pop, rESI);
 	EMIT_OP_REG(ctx.ctx, o_pop, rEBX);
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index b0f3907..09378be 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1614,7 +1614,15 @@ RegVmReturnType ExecutorRegVm::ExecReturn(const RegVmCmd cmd, RegVmCmd * const i
 		}
 
 		if(cmd.rC)
-			ExecCheckedReturn(typeId, regFilePtr);
+		{
+			// Allocation can start a garbage collection, which has to be able to see the frame of the function that returns
+			callStack.push_back(instruction + 1);
+
+			if(!ExecCheckedReturn(typeId, regFilePtr))
+				return rvrError;
+
+			callStack.pop_back();
+		}
 	}
 
 	if(callStack.size() == lastFinalReturn)
@@ -1651,7 +1659,7 @@ bool ExecutorRegVm::ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruct
 	return true;
 }
 
-void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
+bool ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
 {
 	uintptr_t frameBase = regFilePtr[rvrrFrame].ptrValue;
 	uintptr_t frameEnd = regFilePtr[rvrrGlobals].ptrValue + dataStack.size();
@@ -1664,16 +1672,20 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 
 	if(uintptr_t(ptr) >= frameBase && uintptr_t(ptr) <= frameEnd)
 	{
-		// Don't want to trigger GC at this point
-		NULLC::SetCollectMemory(false);
-
 		if(type.arrSize == ~0u)
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = NULLC::AllocArray(exLinker->exTypes[type.subType].size, length, type.subType).ptr;
+
+			if(!copy)
+				return false;
+
 			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
+
+			// Finalizers called by the garbage collector could overwrite the temporary stack
 			vmStorePointer(returnValuePtr, copy);
+			memcpy(returnValuePtr + sizeof(void*), &length, sizeof(length));
 		}
 		else
 		{
@@ -1686,12 +1698,16 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned objSize = exLinker->exTypes[objTypeId].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, objTypeId);
+
+			if(!copy)
+				return false;
+
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
-
-		NULLC::SetCollectMemory(true);
 	}
+
+	return true;
 }
 
 RegVmReturnType ExecutorRegVm::ExecError(RegVmCmd * const instruction, const char *errorMessage)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index fe9aad7..1f513cb 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -109,7 +109,7 @@ private:
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
-	void ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
+	bool ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
 
 	RegVmReturnType ExecError(RegVmCmd * const instruction, const char *errorMessage);
 
-- 
2.43.0


From 773c0bfb4c4b46f1517adae8451c56687f5f89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:06 +0000
Subject: [PATCH 36/59] fix: closing a captured variable visits the whole list
 of open captures

---
 NULLC/ExpressionEval.cpp        | 27 +++++++++++++++++++++------
 NULLC/ExpressionTree.cpp        | 29 +++++++++++++++++++++++++++--
 NULLC/InstructionTreeVmEval.cpp | 29 ++++++++++++++++++++++-------
 NULLC/StdLib.cpp                | 17 +++++++++++------
 NULLC/translation/runtime.cpp   | 15 ++++++++++-----
 5 files changed, 91 insertions(+), 26 deletions(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index beeb8b0..ca55086 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -2703,19 +2703,34 @@ ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunc
 
 		assert(upvalue);
 
-		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
+		Upvalue *head = upvalue;
+		Upvalue *prev = NULL;
+
+		while (upvalue)
 		{
 			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
 
-			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
-			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
-			WriteVmMemoryPointer(&upvalue->target, copy);
-			WriteVmMemoryPointer(&upvalue->next, NULL);
+			if (ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
+			{
+				unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
+				memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
+				WriteVmMemoryPointer(&upvalue->target, copy);
+				WriteVmMemoryPointer(&upvalue->next, NULL);
+
+				if (prev)
+					WriteVmMemoryPointer(&prev->next, next);
+				else
+					head = next;
+			}
+			else
+			{
+				prev = upvalue;
+			}
 
 			upvalue = next;
 		}
 
-		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
+		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)head, (unsigned char*)head + NULLC_PTR_SIZE)))
 			return NULL;
 
 		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 96f873f..575a9f6 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -8685,6 +8685,8 @@ ExprVariableDefinition* CreateFunctionContextVariableDefinition(ExpressionContex
 	// Allocate closure
 	ExprBase *alloc = CreateObjectAllocation(ctx, source, classType);
 
+	FunctionData *currentFunction = ctx.GetCurrentFunction(ctx.scope->ownerType ? ctx.scope->scope : ctx.scope);
+
 	// Initialize closure
 	IntrusiveList<ExprBase> expressions;
 
@@ -8701,19 +8703,42 @@ ExprVariableDefinition* CreateFunctionContextVariableDefinition(ExpressionContex
 
 		expressions.push_back(CreateAssignment(ctx, source, target, CreateGetAddress(ctx, source, value)));
 
+		IntrusiveList<ExprBase> linkExpressions;
+
 		// Link to the current head of the upvalue list
 		ExprBase *nextUpvalue = new (ctx.get<ExprMemberAccess>()) ExprMemberAccess(source, ctx.GetReferenceType(upvalue->nextUpvalue->type), CreateVariableAccess(ctx, source, context, true), new (ctx.get<VariableHandle>()) VariableHandle(NULL, upvalue->nextUpvalue));
 
 		nextUpvalue = new (ctx.get<ExprDereference>()) ExprDereference(source, upvalue->nextUpvalue->type, nextUpvalue);
 
-		expressions.push_back(CreateAssignment(ctx, source, nextUpvalue, GetFunctionUpvalue(ctx, source, upvalue->variable)));
+		linkExpressions.push_back(CreateAssignment(ctx, source, nextUpvalue, GetFunctionUpvalue(ctx, source, upvalue->variable)));
 
 		// Update current head of the upvalue list to our upvalue
 		ExprBase *newHead = new (ctx.get<ExprMemberAccess>()) ExprMemberAccess(source, ctx.GetReferenceType(upvalue->target->type), CreateVariableAccess(ctx, source, context, true), new (ctx.get<VariableHandle>()) VariableHandle(NULL, upvalue->target));
 
 		newHead = new (ctx.get<ExprTypeCast>()) ExprTypeCast(source, ctx.GetReferenceType(ctx.typeVoid), newHead, EXPR_CAST_REINTERPRET);
 
-		expressions.push_back(CreateAssignment(ctx, source, GetFunctionUpvalue(ctx, source, upvalue->variable), newHead));
+		linkExpressions.push_back(CreateAssignment(ctx, source, GetFunctionUpvalue(ctx, source, upvalue->variable), newHead));
+
+		ExprBase *link = new (ctx.get<ExprBlock>()) ExprBlock(source, ctx.typeVoid, linkExpressions, NULL);
+
+		// If the variable belongs to an outer function, it might have already been closed and there is nothing to wait for
+		if(UpvalueData **outer = currentFunction ? currentFunction->upvalueVariableMap.find(upvalue->variable) : NULL)
+		{
+			ExprBase *outerContext = new (ctx.get<ExprVariableAccess>()) ExprVariableAccess(source, currentFunction->contextArgument->type, currentFunction->contextArgument);
+
+			ExprBase *outerCopy = new (ctx.get<ExprMemberAccess>()) ExprMemberAccess(source, ctx.GetReferenceType((*outer)->copy->type), outerContext, new (ctx.get<VariableHandle>()) VariableHandle(NULL, (*outer)->copy));
+
+			ExprBase *outerTarget = CreateGetAddress(ctx, source, CreateVariableAccess(ctx, source, upvalue->variable, false));
+
+			outerTarget = new (ctx.get<ExprTypeCast>()) ExprTypeCast(source, ctx.GetReferenceType(ctx.typeVoid), outerTarget, EXPR_CAST_REINTERPRET);
+			outerCopy = new (ctx.get<ExprTypeCast>()) ExprTypeCast(source, ctx.GetReferenceType(ctx.typeVoid), outerCopy, EXPR_CAST_REINTERPRET);
+
+			ExprBase *isOpen = new (ctx.get<ExprBinaryOp>()) ExprBinaryOp(source, ctx.typeBool, SYN_BINARY_OP_NOT_EQUAL, outerTarget, outerCopy);
+
+			link = new (ctx.get<ExprIfElse>()) ExprIfElse(source, ctx.typeVoid, isOpen, link, NULL);
+		}
+
+		expressions.push_back(link);
 	}
 
 	ExprBase *initializer = new (ctx.get<ExprBlock>()) ExprBlock(source, ctx.typeVoid, expressions, NULL);
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index ec9ddce..f1a8fef 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -2457,23 +2457,38 @@ VmConstant* EvaluateKnownExternalFunction(InstructionVMEvalContext &ctx, Functio
 		int upvalueVmPtr = upvalueListHead->iValue;
 		Upvalue *upvalueDataPtr = (Upvalue*)upvalueListHeadData;
 
-		while(upvalueDataPtr && ReadVmMemoryPointer(&upvalueDataPtr->target) == variableLocation->iValue)
+		int headVmPtr = upvalueVmPtr;
+		Upvalue *prevDataPtr = NULL;
+
+		while(upvalueDataPtr)
 		{
 			int nextVmPtr = (int)ReadVmMemoryPointer(&upvalueDataPtr->next);
 			Upvalue *nextDataPtr = (Upvalue*)GetPointerDataPtr(ctx, nextVmPtr);
 
-			char *variableLocationData = GetPointerDataPtr(ctx, variableLocation->iValue);
+			if(ReadVmMemoryPointer(&upvalueDataPtr->target) == variableLocation->iValue)
+			{
+				char *variableLocationData = GetPointerDataPtr(ctx, variableLocation->iValue);
+
+				char *copy = (char*)upvalueDataPtr + offsetToCopy->iValue;
+				memcpy(copy, variableLocationData, unsigned(copySize->iValue));
+				WriteVmMemoryPointer(&upvalueDataPtr->target, upvalueVmPtr + offsetToCopy->iValue);
+				WriteVmMemoryPointer(&upvalueDataPtr->next, 0);
 
-			char *copy = (char*)upvalueDataPtr + offsetToCopy->iValue;
-			memcpy(copy, variableLocationData, unsigned(copySize->iValue));
-			WriteVmMemoryPointer(&upvalueDataPtr->target, upvalueVmPtr + offsetToCopy->iValue);
-			WriteVmMemoryPointer(&upvalueDataPtr->next, 0);
+				if(prevDataPtr)
+					WriteVmMemoryPointer(&prevDataPtr->next, nextVmPtr);
+				else
+					headVmPtr = nextVmPtr;
+			}
+			else
+			{
+				prevDataPtr = upvalueDataPtr;
+			}
 
 			upvalueVmPtr = nextVmPtr;
 			upvalueDataPtr = nextDataPtr;
 		}
 
-		StoreFrameValue(ctx, upvalueListLocation, 0, CreateConstantPointer(ctx.allocator, NULL, upvalueVmPtr, NULL, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), false), NULLC_PTR_SIZE);
+		StoreFrameValue(ctx, upvalueListLocation, 0, CreateConstantPointer(ctx.allocator, NULL, headVmPtr, NULL, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), false), NULLC_PTR_SIZE);
 
 		return CreateConstantVoid(ctx.allocator);
 	}
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index ab88106..6fbc975 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1661,19 +1661,24 @@ void NULLC::CloseUpvalue(void **upvalueList, void *variable, int offset, int siz
 		Upvalue *next;
 	};
 
-	Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(upvalueList);
+	// Location of the pointer to the current element, list might contain elements of other activations in any order
+	void *location = upvalueList;
 
-	while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variable)
+	while (Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(location))
 	{
-		Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
+		if (ReadVmMemoryPointer(&upvalue->target) != variable)
+		{
+			location = &upvalue->next;
+			continue;
+		}
+
+		void *next = ReadVmMemoryPointer(&upvalue->next);
 
 		char *copy = (char*)upvalue + offset;
 		memcpy(copy, variable, unsigned(size));
 		WriteVmMemoryPointer(&upvalue->target, copy);
 		WriteVmMemoryPointer(&upvalue->next, NULL);
 
-		upvalue = next;
+		WriteVmMemoryPointer(location, next);
 	}
-
-	WriteVmMemoryPointer(upvalueList, upvalue);
 }
diff --git a/NULLC/translation/runtime.cpp b/NULLC/translation/runtime.cpp
index b77b9f1..d37ee87 100644
--- a/NULLC/translation/runtime.cpp
+++ b/NULLC/translation/runtime.cpp
@@ -1605,10 +1605,17 @@ void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void **upvalueList,
 		Upvalue *next;
 	};
 
-	Upvalue *upvalue = *(Upvalue**)upvalueList;
+	// Location of the pointer to the current element, list might contain elements of other activations in any order
+	Upvalue **location = (Upvalue**)upvalueList;
 
-	while (upvalue && upvalue->target == variable)
+	while (Upvalue *upvalue = *location)
 	{
+		if (upvalue->target != variable)
+		{
+			location = &upvalue->next;
+			continue;
+		}
+
 		Upvalue *next = upvalue->next;
 
 		char *copy = (char*)upvalue + offset;
@@ -1616,10 +1623,8 @@ void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void **upvalueList,
 		upvalue->target = copy;
 		upvalue->next = NULL;
 
-		upvalue = next;
+		*location = next;
 	}
-
-	*(Upvalue**)upvalueList = upvalue;
 }
 
 int float__str_610894668_precision__int_ref___(void* __context)
-- 
2.43.0


From 0ec6ec6a390e985d46d7844c51c9b5fbf8bc64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:06 +0000
Subject: [PATCH 37/59] fix: variables captured in switch cases and loop
 conditions are closed at the end of their scope

---
 NULLC/ExpressionTree.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 575a9f6..5be3287 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11183,7 +11183,7 @@ ExprBase* AnalyzeIfElse(ExpressionContext &ctx, SynIfElse *syntax)
 	return new (ctx.get<ExprIfElse>()) ExprIfElse(syntax, ctx.typeVoid, condition, trueBlock, falseBlock);
 }
 
-ExprFor* AnalyzeFor(ExpressionContext &ctx, SynFor *syntax)
+ExprBase* AnalyzeFor(ExpressionContext &ctx, SynFor *syntax)
 {
 	ctx.PushLoopScope(false, false);
 
@@ -11215,9 +11215,16 @@ ExprFor* AnalyzeFor(ExpressionContext &ctx, SynFor *syntax)
 
 	ExprBlock *block = new (ctx.get<ExprBlock>()) ExprBlock(syntax, ctx.typeVoid, iteration, NULL);
 
+	// Closures created by the last evaluation of the condition are closed when the loop ends
+	IntrusiveList<ExprBase> expressions;
+
+	expressions.push_back(new (ctx.get<ExprFor>()) ExprFor(syntax, ctx.typeVoid, initializer, condition, block, body));
+
+	ExprBase *loop = new (ctx.get<ExprBlock>()) ExprBlock(syntax, ctx.typeVoid, expressions, CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope));
+
 	ctx.PopScope(SCOPE_LOOP);
 
-	return new (ctx.get<ExprFor>()) ExprFor(syntax, ctx.typeVoid, initializer, condition, block, body);
+	return loop;
 }
 
 ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
@@ -11497,12 +11504,16 @@ ExprWhile* AnalyzeWhile(ExpressionContext &ctx, SynWhile *syntax)
 	return new (ctx.get<ExprWhile>()) ExprWhile(syntax, ctx.typeVoid, condition, body);
 }
 
-ExprDoWhile* AnalyzeDoWhile(ExpressionContext &ctx, SynDoWhile *syntax)
+ExprBase* AnalyzeDoWhile(ExpressionContext &ctx, SynDoWhile *syntax)
 {
 	ctx.PushLoopScope(true, true);
 
 	IntrusiveList<ExprBase> expressions;
 
+	// Closures created by the condition are closed at the start of the next iteration or when the loop ends
+	if(ExprBase *closures = CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope))
+		expressions.push_back(closures);
+
 	for(SynBase *expression = syntax->expressions.head; expression; expression = expression->next)
 		expressions.push_back(AnalyzeStatement(ctx, expression));
 
@@ -11512,9 +11523,15 @@ ExprDoWhile* AnalyzeDoWhile(ExpressionContext &ctx, SynDoWhile *syntax)
 
 	ExprBase *block = new (ctx.get<ExprBlock>()) ExprBlock(syntax, ctx.typeVoid, expressions, CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope));
 
+	IntrusiveList<ExprBase> loopExpressions;
+
+	loopExpressions.push_back(new (ctx.get<ExprDoWhile>()) ExprDoWhile(syntax, ctx.typeVoid, block, condition));
+
+	ExprBase *loop = new (ctx.get<ExprBlock>()) ExprBlock(syntax, ctx.typeVoid, loopExpressions, CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope));
+
 	ctx.PopScope(SCOPE_LOOP);
 
-	return new (ctx.get<ExprDoWhile>()) ExprDoWhile(syntax, ctx.typeVoid, block, condition);
+	return loop;
 }
 
 ExprSwitch* AnalyzeSwitch(ExpressionContext &ctx, SynSwitch *syntax)
@@ -11583,6 +11600,10 @@ ExprSwitch* AnalyzeSwitch(ExpressionContext &ctx, SynSwitch *syntax)
 			defaultBlock = block;
 	}
 
+	// Case blocks continue into the next one, variables leave the scope at the end of the last block
+	if(ExprBlock *lastBlock = getType<ExprBlock>(defaultBlock ? defaultBlock : blocks.tail))
+		lastBlock->closures = CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope);
+
 	ctx.PopScope(SCOPE_LOOP);
 
 	return new (ctx.get<ExprSwitch>()) ExprSwitch(syntax, ctx.typeVoid, condition, cases, blocks, defaultBlock);
-- 
2.43.0


From 784b48dc19daf4188d5b01ee2af6acd76c6b6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 38/59] fix: list keeps its ends and links consistent after
 insert, push_front and pop

---
 Modules/old/list.nc |  4 +++-
 Modules/std/list.nc | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Modules/old/list.nc b/Modules/old/list.nc
index 50166eb..727c2bd 100644
--- a/Modules/old/list.nc
+++ b/Modules/old/list.nc
@@ -77,7 +77,7 @@ void list:push_front(auto ref elem)
 		first = first.prev;
 		first.elem = isPointer(elemType) ? elem : duplicate(elem);
 	}
-	last.parent = this;
+	first.parent = this;
 }
 void list:insert(list_node ref it, auto ref elem)
 {
@@ -93,6 +93,8 @@ void list:insert(list_node ref it, auto ref elem)
 	it.next.parent = this;
 	if(next)
 		next.prev = it.next;
+	else
+		last = it.next;
 }
 void list:erase(list_node ref it)
 {
diff --git a/Modules/std/list.nc b/Modules/std/list.nc
index 626f653..dfdd00c 100644
--- a/Modules/std/list.nc
+++ b/Modules/std/list.nc
@@ -61,12 +61,20 @@ void list:pop_back()
 	if(!last)
 		assert(0, "list::pop_back list is empty");
 	last = last.prev;
+	if(last)
+		last.next = nullptr;
+	else
+		first = nullptr;
 }
 void list:pop_front()
 {
 	if(!first)
 		assert(0, "list::pop_back list is empty");
 	first = first.next;
+	if(first)
+		first.prev = nullptr;
+	else
+		last = nullptr;
 }
 void list:insert(list_node<T> ref it, T elem)
 {
@@ -80,6 +88,8 @@ void list:insert(list_node<T> ref it, T elem)
 	it.next.parent = this;
 	if(next)
 		next.prev = it.next;
+	else
+		last = it.next;
 }
 void list:erase(list_node<T> ref it)
 {
-- 
2.43.0


From 0ff213e175c204100dbb4a4d11cb860917b1480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 39/59] fix: vector resize does not bring back removed elements

---
 Modules/std/vector.nc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Modules/std/vector.nc b/Modules/std/vector.nc
index f66d2a7..b9e5416 100644
--- a/Modules/std/vector.nc
+++ b/Modules/std/vector.nc
@@ -89,8 +89,8 @@ void vector:resize(int size)
 	assert(size >= 0);
 
 	T[] nArr = new T[size];
-	for(i in data, j in nArr)
-		j = i;
+	for(int i = 0; i < count && i < size; i++)
+		nArr[i] = data[i];
 	data = nArr;
 	count = size;
 }
-- 
2.43.0


From 7750433d730945921f622a91a3adffe43e7ec580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 40/59] fix: bind_first and bind_last accept functions with
 three and more arguments

---
 Modules/std/algorithm.nc | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Modules/std/algorithm.nc b/Modules/std/algorithm.nc
index 5197c1d..b524168 100644
--- a/Modules/std/algorithm.nc
+++ b/Modules/std/algorithm.nc
@@ -204,19 +204,19 @@ auto bind_first(generic f, v)
 		return auto(){ return f(v); };
 	else if(typeof(f).argument.size == 2)
 		return auto(typeof(f).argument[1] v1){ return f(v, v1); };
-	else if(typeof(f).argument.size == 2)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v, v1, v2); };
 	else if(typeof(f).argument.size == 3)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v, v1, v2, v3); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v, v1, v2); };
 	else if(typeof(f).argument.size == 4)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v, v1, v2, v3, v4); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v, v1, v2, v3); };
 	else if(typeof(f).argument.size == 5)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v, v1, v2, v3, v4, v5); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v, v1, v2, v3, v4); };
 	else if(typeof(f).argument.size == 6)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v, v1, v2, v3, v4, v5, v6); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v, v1, v2, v3, v4, v5); };
 	else if(typeof(f).argument.size == 7)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v, v1, v2, v3, v4, v5, v6, v7); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v, v1, v2, v3, v4, v5, v6); };
 	else if(typeof(f).argument.size == 8)
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v, v1, v2, v3, v4, v5, v6, v7); };
+	else if(typeof(f).argument.size == 9)
 		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7, typeof(f).argument[8] v8){ return f(v, v1, v2, v3, v4, v5, v6, v7, v8); };
 	else
 		_unsupported_argument_count_;
@@ -227,21 +227,21 @@ auto bind_last(generic f, v)
 	@if(typeof(f).argument.size == 1)
 		return auto(){ return f(v); };
 	else if(typeof(f).argument.size == 2)
-		return auto(typeof(f).argument[1] v1){ return f(v1, v); };
-	else if(typeof(f).argument.size == 2)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v1, v2, v); };
+		return auto(typeof(f).argument[0] v1){ return f(v1, v); };
 	else if(typeof(f).argument.size == 3)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v1, v2, v3, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2){ return f(v1, v2, v); };
 	else if(typeof(f).argument.size == 4)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v1, v2, v3, v4, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3){ return f(v1, v2, v3, v); };
 	else if(typeof(f).argument.size == 5)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v1, v2, v3, v4, v5, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3, typeof(f).argument[3] v4){ return f(v1, v2, v3, v4, v); };
 	else if(typeof(f).argument.size == 6)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v1, v2, v3, v4, v5, v6, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3, typeof(f).argument[3] v4, typeof(f).argument[4] v5){ return f(v1, v2, v3, v4, v5, v); };
 	else if(typeof(f).argument.size == 7)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v1, v2, v3, v4, v5, v6, v7, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3, typeof(f).argument[3] v4, typeof(f).argument[4] v5, typeof(f).argument[5] v6){ return f(v1, v2, v3, v4, v5, v6, v); };
 	else if(typeof(f).argument.size == 8)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7, typeof(f).argument[8] v8){ return f(v1, v2, v3, v4, v5, v6, v7, v8, v); };
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3, typeof(f).argument[3] v4, typeof(f).argument[4] v5, typeof(f).argument[5] v6, typeof(f).argument[6] v7){ return f(v1, v2, v3, v4, v5, v6, v7, v); };
+	else if(typeof(f).argument.size == 9)
+		return auto(typeof(f).argument[0] v1, typeof(f).argument[1] v2, typeof(f).argument[2] v3, typeof(f).argument[3] v4, typeof(f).argument[4] v5, typeof(f).argument[5] v6, typeof(f).argument[6] v7, typeof(f).argument[7] v8){ return f(v1, v2, v3, v4, v5, v6, v7, v8, v); };
 	else
 		_unsupported_argument_count_;
 }
-- 
2.43.0


From f58fbdbd53372624a1d8a49bbcb34c7881ef38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 41/59] fix: calling frame was reported twice for a call
 through a null function pointer (JIT)

---
 NULLC/CodeGenRegVm_X86.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9bf720e..ade93ed 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2229,9 +2229,7 @@ void ErrorInvalidFunctionPointer(CodeGenRegVmStateContext *vmState)
 {
 	CodeGenRegVmContext &ctx = *vmState->ctx;
 
-	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
-	vmState->callStackTop++;
-
+	// Call stack entry was already created by the call prologue
 	ctx.x86rvm->Stop("ERROR: invalid function pointer");
 	longjmp(vmState->errorHandler, 1);
 }
-- 
2.43.0


From a6366e967dbbe5e697aeb55db95e251f0559f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 42/59] fix: location of a fault in JIT code was searched in a
 list that is not sorted

---
 NULLC/Executor_X86.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 3101e6b..d771e61 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -117,25 +117,15 @@ namespace NULLC
 
 	unsigned GetInstructionFromAddress(uintptr_t address)
 	{
-		unsigned lowerBound = 0;
-		unsigned upperBound = currExecutor->instAddress.size() - 1;
 		unsigned index = 0;
 
-		while(lowerBound <= upperBound)
+		// Instructions that were merged with their neighbours do not have an address, so the list is not fully sorted
+		for(unsigned i = 0; i < currExecutor->instAddress.size(); i++)
 		{
-			index = (lowerBound + upperBound) >> 1;
-
-			if(address < uintptr_t(currExecutor->instAddress.data[index]))
-				upperBound = index - 1;
-			else if(address > uintptr_t(currExecutor->instAddress.data[index]))
-				lowerBound = index + 1;
-			else
-				break;
+			if(currExecutor->instAddress.data[i] && address >= uintptr_t(currExecutor->instAddress.data[i]))
+				index = i;
 		}
 
-		if(index != 0 && address < uintptr_t(currExecutor->instAddress.data[index]))
-			index--;
-
 		return index;
 	}
 
-- 
2.43.0


From df39b508151dcc706e9eeb5b30de0969f66d396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:01 +0000
Subject: [PATCH 43/59] fix: null pointer load merged into a later operation
 was reported at the line of that operation

---
 NULLC/InstructionTreeVm.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index f312c4f..0f2ea27 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6530,6 +6530,10 @@ void RunLatePeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmVa
 
 					VmConstant *loadType = CreateConstantInt(ctx.allocator, inst->source, int(rhs->cmd));
 
+					// Unless the operation can fail by itself, load from a null pointer is reported at the location of the load
+					if(inst->cmd != VM_INST_MOD)
+						inst->source = rhs->source;
+
 					ChangeInstructionTo(module, inst, GetOperationWithLoad(inst->cmd), inst->arguments[0], loadAddress, loadOffset, loadType, NULL, &module->peepholeOptimizations);
 				}
 			}
@@ -6558,6 +6562,9 @@ void RunLatePeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmVa
 
 					VmConstant *loadType = CreateConstantInt(ctx.allocator, inst->source, int(lhs->cmd));
 
+					// Operation cannot fail by itself, but a load from a null pointer is reported at the location of the load
+					inst->source = lhs->source;
+
 					ChangeInstructionTo(module, inst, GetOperationWithLoad(inst->cmd), inst->arguments[1], loadAddress, loadOffset, loadType, NULL, &module->peepholeOptimizations);
 				}
 			}
@@ -6577,6 +6584,9 @@ void RunLatePeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmVa
 
 					VmConstant *loadType = CreateConstantInt(ctx.allocator, inst->source, int(lhs->cmd));
 
+					// Operation cannot fail by itself, but a load from a null pointer is reported at the location of the load
+					inst->source = lhs->source;
+
 					ChangeInstructionTo(module, inst, GetMirroredComparisonOperationWithLoad(inst->cmd), inst->arguments[1], loadAddress, loadOffset, loadType, NULL, &module->peepholeOptimizations);
 				}
 			}
-- 
2.43.0


From e080b5e000080bfa26f833730b435520aa183f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:30 +0000
Subject: [PATCH 44/59] fix: first line of a module was joined with the last
 line of the previous one in call stacks

---
 NULLC/Executor_Common.cpp | 2 +-
 NULLC/Linker.cpp          | 2 +-
 NULLC/nullc.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index ee20b93..fbc8d98 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -170,7 +170,7 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 		const char *codeStart = source + exInfo[infoID].sourceOffset;
 
 		// Find beginning of the line
-		while(codeStart != source && *(codeStart-1) != '\n')
+		while(codeStart != source && *(codeStart-1) != '\n' && *(codeStart-1) != '\0')
 			codeStart--;
 
 		// Skip whitespace
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e638069..cd0502e 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -913,7 +913,7 @@ bool Linker::SaveRegVmListing(OutputContext &output, bool withProfileInfo)
 			const char *codeStart = exSource.data + info[line].sourceOffset;
 
 			// Find beginning of the line
-			while(codeStart != exSource.data && *(codeStart-1) != '\n')
+			while(codeStart != exSource.data && *(codeStart-1) != '\n' && *(codeStart-1) != '\0')
 				codeStart--;
 
 			// Skip whitespace
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 6052bcb..e04357f 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -2323,7 +2323,7 @@ const char* nullcDebugGetVmAddressLocation(unsigned instruction, unsigned full)
 	if(full)
 	{
 		// Find beginning of the line
-		while(codeStart != fullSource && *(codeStart - 1) != '\n')
+		while(codeStart != fullSource && *(codeStart - 1) != '\n' && *(codeStart - 1) != '\0')
 			codeStart--;
 
 		// Skip whitespace
-- 
2.43.0


From 39761814b743c1fff5c2a879995e0b78be504736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 45/59] fix: numeric literals with a positive exponent sign,
 octal long literals and range of decimal literals

---
 NULLC/ExpressionTree.cpp | 10 ++++++----
 NULLC/Lexer.cpp          |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 5be3287..cd9a2fa 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -3775,7 +3775,9 @@ ExprBase* AnalyzeNumber(ExpressionContext &ctx, SynNumber *syntax)
 		}
 		else if(syntax->suffix == InplaceStr("l"))
 		{
-			unsigned long long num = ParseLong(ctx, syntax, value.begin, value.end, 10);
+			bool octal = value.length() > 1 && value.begin[0] == '0';
+
+			unsigned long long num = ParseLong(ctx, syntax, value.begin, value.end, octal ? 8 : 10);
 
 			if(num > 9223372036854775807ull)
 				StopAt(ctx, syntax, value.begin, "ERROR: overflow in integer constant");
@@ -3807,12 +3809,12 @@ ExprBase* AnalyzeNumber(ExpressionContext &ctx, SynNumber *syntax)
 			return new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(syntax, ctx.typeLong, num);
 		}
 
-		long long num = (long long)ParseLong(ctx, syntax, value.begin, value.end, 10);
+		unsigned long long num = ParseLong(ctx, syntax, value.begin, value.end, 10);
 
-		if(int(num) != num)
+		if(num > 2147483647ull)
 			StopAt(ctx, syntax, value.begin, "ERROR: overflow in integer constant");
 
-		return new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(syntax, ctx.typeInt, num);
+		return new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(syntax, ctx.typeInt, (long long)num);
 	}
 
 	if(syntax->suffix == InplaceStr("f"))
diff --git a/NULLC/Lexer.cpp b/NULLC/Lexer.cpp
index 8d5eff5..01a6403 100644
--- a/NULLC/Lexer.cpp
+++ b/NULLC/Lexer.cpp
@@ -406,7 +406,7 @@ void Lexer::Lexify(const char* code)
 				if(*pos == 'e')
 				{
 					pos++;
-					if(*pos == '-')
+					if(*pos == '-' || *pos == '+')
 						pos++;
 				}
 				while(isDigit(*pos))
-- 
2.43.0


From be63f375ec4c5e36d73bcb1cfe3ee2d139e38698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 46/59] fix: character array concatenation with an empty right
 side lost the terminator and wrote past the result

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 6fbc975..b45e58a 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -997,7 +997,7 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 	NULLCArray ret;
 
 	// If first part is zero-terminated, override zero in the new string
-	int shift = a.len && (a.ptr[a.len-1] == 0);
+	int shift = a.len && b.len && (a.ptr[a.len-1] == 0);
 	ret.len = a.len + b.len - shift;
 	ret.ptr = (char*)AllocObject(ret.len, NULLC_TYPE_CHAR);
 	if(!ret.ptr)
-- 
2.43.0


From 8cd134280646b9a92291b330654a9b1ffe67cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 47/59] fix: string to number conversions read past
 unterminated arrays, number to string conversions truncated long results

---
 NULLC/StdLib.cpp | 125 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 28 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index b45e58a..dd08951 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1062,9 +1062,93 @@ long long NULLC::UnsignedValueInt(unsigned int a)
 	return a;
 }
 
+namespace
+{
+	// Character arrays are not always null-terminated, while the C library functions that read numbers expect it
+	template<typename T, T (*Convert)(const char*)>
+	T ConvertBounded(NULLCArray str)
+	{
+		if(!str.ptr || !str.len)
+			return 0;
+
+		if(memchr(str.ptr, 0, str.len))
+			return Convert(str.ptr);
+
+		char small[64];
+		char *buf = str.len < sizeof(small) ? small : (char*)NULLC::alloc(str.len + 1);
+
+		if(!buf)
+		{
+			nullcThrowError("ERROR: out of memory");
+			return 0;
+		}
+
+		memcpy(buf, str.ptr, str.len);
+		buf[str.len] = 0;
+
+		T result = Convert(buf);
+
+		if(buf != small)
+			NULLC::dealloc(buf);
+
+		return result;
+	}
+
+	int ConvertInt(const char *str)
+	{
+		return atoi(str);
+	}
+
+	long long ConvertLong(const char *p)
+	{
+		bool negative = *p == '-';
+		if(negative)
+			p++;
+
+		unsigned long long res = 0;
+		while(unsigned(*p - '0') < 10)
+			res = res * 10 + unsigned(*p++ - '0');
+
+		return res * (negative ? -1 : 1);
+	}
+
+	double ConvertDouble(const char *str)
+	{
+		return atof(str);
+	}
+
+	NULLCArray FormatDouble(int precision, bool exponent, double value)
+	{
+		NULLCArray arr = { 0, 0 };
+
+		const char *format = exponent ? "%.*e" : "%.*f";
+
+		char buf[256];
+		int length = snprintf(buf, sizeof(buf), format, precision, value);
+
+		if(length < 0)
+		{
+			nullcThrowError("ERROR: failed to convert number to string");
+			return arr;
+		}
+
+		arr = NULLC::AllocArray(1, length + 1, NULLC_TYPE_CHAR);
+
+		if(!arr.ptr)
+			return arr;
+
+		if(length < (int)sizeof(buf))
+			memcpy(arr.ptr, buf, arr.len);
+		else
+			snprintf(arr.ptr, arr.len, format, precision, value);
+
+		return arr;
+	}
+}
+
 int NULLC::StrToShort(NULLCArray str)
 {
-	return str.ptr ? short(atoi(str.ptr)) : 0;
+	return short(ConvertBounded<int, ConvertInt>(str));
 }
 
 NULLCArray NULLC::ShortToStr(short* r)
@@ -1089,6 +1173,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1100,7 +1186,7 @@ NULLCArray NULLC::ShortToStr(short* r)
 
 int NULLC::StrToInt(NULLCArray str)
 {
-	return str.ptr ? atoi(str.ptr) : 0;
+	return ConvertBounded<int, ConvertInt>(str);
 }
 
 NULLCArray NULLC::IntToStr(int* r)
@@ -1125,6 +1211,8 @@ NULLCArray NULLC::IntToStr(int* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1136,20 +1224,7 @@ NULLCArray NULLC::IntToStr(int* r)
 
 long long NULLC::StrToLong(NULLCArray str)
 {
-	if(!str.ptr)
-		return 0;
-
-	const char *p = str.ptr;
-
-	bool negative = *p == '-';
-	if(negative)
-		p++;
-
-	unsigned long long res = 0;
-	while(unsigned(*p - '0') < 10)
-		res = res * 10 + unsigned(*p++ - '0');
-
-	return res * (negative ? -1 : 1);
+	return ConvertBounded<long long, ConvertLong>(str);
 }
 
 NULLCArray NULLC::LongToStr(long long* r)
@@ -1174,6 +1249,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1185,7 +1262,7 @@ NULLCArray NULLC::LongToStr(long long* r)
 
 float NULLC::StrToFloat(NULLCArray str)
 {
-	return str.ptr ? float(atof(str.ptr)) : 0;
+	return float(ConvertBounded<double, ConvertDouble>(str));
 }
 
 NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
@@ -1197,16 +1274,12 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatDouble(precision, exponent, *r);
 }
 
 double NULLC::StrToDouble(NULLCArray str)
 {
-	return str.ptr ? atof(str.ptr) : 0;
+	return ConvertBounded<double, ConvertDouble>(str);
 }
 
 NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
@@ -1218,11 +1291,7 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatDouble(precision, exponent, *r);
 }
 
 NULLCFuncPtr NULLC::FunctionRedirect(NULLCRef r, NULLCArray* arr)
-- 
2.43.0


From 5d2aa74caf0782e9fb7ce70c1b1bf13de71f734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 48/59] fix: std.string operations on empty strings, erase up
 to the end and comparison with empty strings

---
 Modules/std/string.nc | 99 ++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 49 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index c351e97..e662e7b 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -205,8 +205,7 @@ string ref operator+=(string ref left, string ref right)
 
 string ref operator+=(string ref left, char[] right)
 {
-	left.data = left.data + right;
-	return left;
+	return left += string(right);
 }
 
 // Inserts a string before the specified character
@@ -252,15 +251,15 @@ string ref string:insert(int offset, int count, char ch)
 // If the length is not specified, erases all the characters starting from the specified character
 string ref string:erase(int offset, int length = -1)
 {
-	if(length < 0 || length > data.size - offset)
-		length = data.size - offset - 1;
-	if(length == 0)
+	// Do not do anything while erasing from empty string
+	if(size == 0)
 		return this;
 
 	assert(offset == 0 || (offset > 0 && offset < data.size));
-	
-	// Do not do anything while erasing from empty string
-	if(size == 0)
+
+	if(length < 0 || length >= data.size - offset)
+		length = data.size - offset - 1;
+	if(length == 0)
 		return this;
 	
 	auto buf = new char[data.size - length];
@@ -279,19 +278,22 @@ string ref string:replace(int offset, int length, string ref str)
 {
 	assert(offset == 0 || (offset > 0 && offset < data.size));
 
-	if(length < 0 || length >= data.size - offset)
-		length = data.size - offset - 1;
+	if(length < 0 || length > size - offset)
+		length = size - offset;
+
+	if(length == 0 && str.size == 0)
+		return this;
 
-	auto buf = new char[data.size - length + str.data.size - 1];
+	auto buf = new char[size - length + str.size + 1];
 	
 	for(int i = 0; i < offset; i++)
 		buf[i] = data[i];
 
-	for(int i = 0; i < str.data.size - 1; i++)
+	for(int i = 0; i < str.size; i++)
 		buf[i + offset] = str.data[i];
 
-	for(int i = offset + length; i < data.size - 1; i++)
-		buf[i - length + str.data.size - 1] = data[i];
+	for(int i = offset + length; i < size; i++)
+		buf[i - length + str.size] = data[i];
 
 	data = buf;
 	return this;
@@ -324,7 +326,7 @@ void string:swap(char[] right)
 // Optional offset specifies how many characters to skip from the start of the string during the search
 int string:find(string ref str, int offset = 0)
 {
-	int last = data.size - str.data.size + 1;
+	int last = size - str.size + 1;
 
 	for(int i = offset; i < last; i++)
 	{
@@ -361,7 +363,7 @@ int string:find(char ch, int offset = 0)
 // Optional offset specifies how many characters to consider in the search counting from the beginning of the string including the character at the specified offset
 int string:rfind(string ref str, int offset = -1)
 {
-	if(str.data.size == 0)
+	if(str.size == 0)
 		return offset >= 0 && offset < data.size ? offset : size;
 
 	if(offset < 0 || offset >= data.size - 1)
@@ -570,113 +572,112 @@ string operator+(string ref left, char[] right)
 	return left + string(right);
 }
 
+// Find relation between the string and a null-terminated character array
+// Return value is -1 if the string comes before the array, 0 if they are equal and 1 if the string comes after the array
+int string:compare(char[] right)
+{
+	// Empty string is represented by an empty array as well as by an array with a single null-character
+	if(size == 0)
+		return right.size == 0 || right[0] == 0 ? 0 : -1;
+
+	if(right.size == 0)
+		return 1;
+
+	return strcmp(data, right);
+}
+
 // Compare strings for equality
 bool operator==(string ref left, string ref right)
 {
 	if(left.size != right.size)
 		return false;
 
-	return left.data == right.data;
+	return left.size == 0 || left.data == right.data;
 }
 
 bool operator==(string ref left, char[] right)
 {
-	if(right.size > 1)
-		return strcmp(left.data, right) == 0;
-
-	return left.size == 0;
+	return left.compare(right) == 0;
 }
 
 bool operator==(char[] left, string ref right)
 {
-	if(left.size > 1)
-		return strcmp(left, right.data) == 0;
-
-	return right.size == 0;
+	return right.compare(left) == 0;
 }
 
 // Compare strings for inequality
 bool operator!=(string ref left, string ref right)
 {
-	if(left.size != right.size)
-		return true;
-	
-	return left.data != right.data;
+	return !(left == right);
 }
 
 bool operator!=(string ref left, char[] right)
 {
-	if(right.size > 1)
-		return strcmp(left.data, right) != 0;
-	
-	return left.size != 0;
+	return left.compare(right) != 0;
 }
 
 bool operator!=(char[] left, string ref right)
 {
-	if(left.size > 1)
-		return strcmp(left, right.data) != 0;
-	
-	return right.size != 0;
+	return right.compare(left) != 0;
 }
 
 // String ordering
 bool operator<(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) < 0;
+	return left.compare(right.data) < 0;
 }
 
 bool operator<(string ref left, char[] right)
 {
-	return strcmp(left.data, right) < 0;
+	return left.compare(right) < 0;
 }
 
 bool operator<(char[] left, string ref right)
 {
-	return strcmp(left, right.data) < 0;
+	return right.compare(left) > 0;
 }
 
 bool operator<=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) <= 0;
+	return left.compare(right.data) <= 0;
 }
 
 bool operator<=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) <= 0;
+	return left.compare(right) <= 0;
 }
 
 bool operator<=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) <= 0;
+	return right.compare(left) >= 0;
 }
 
 bool operator>(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) > 0;
+	return left.compare(right.data) > 0;
 }
 
 bool operator>(string ref left, char[] right)
 {
-	return strcmp(left.data, right) > 0;
+	return left.compare(right) > 0;
 }
 
 bool operator>(char[] left, string ref right)
 {
-	return strcmp(left, right.data) > 0;
+	return right.compare(left) < 0;
 }
 
 bool operator>=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) >= 0;
+	return left.compare(right.data) >= 0;
 }
 
 bool operator>=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) >= 0;
+	return left.compare(right) >= 0;
 }
 
 bool operator>=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) >= 0;
+	return right.compare(left) <= 0;
 }
-- 
2.43.0


From 47ec02fb6c7f8f48db181511ec6cd189290bd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 49/59] fix: module lookup identified modules, sources and
 bytecode by hash or by a stale position

---
 NULLC/BinaryCache.cpp    | 28 +++++++++++++++-------------
 NULLC/BinaryCache.h      |  2 +-
 NULLC/ExpressionTree.cpp |  4 ++--
 NULLC/Linker.cpp         | 14 ++++++++++----
 NULLC/Linker.h           |  1 +
 NULLC/nullc.cpp          | 16 ++++++++++++----
 6 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/NULLC/BinaryCache.cpp b/NULLC/BinaryCache.cpp
index 1ce84ea..f815c27 100644
--- a/NULLC/BinaryCache.cpp
+++ b/NULLC/BinaryCache.cpp
@@ -41,7 +41,10 @@ void BinaryCache::RemoveImportPath(const char* path)
 		{
 			NULLC::dealloc(importPaths[i]);
 
-			importPaths[i] = importPaths.back();
+			// Keep the lookup order of the remaining paths
+			for(unsigned int k = i + 1; k < importPaths.size(); k++)
+				importPaths[k - 1] = importPaths[k];
+
 			importPaths.pop_back();
 			return;
 		}
@@ -99,7 +102,7 @@ void BinaryCache::PutBytecode(const char* path, const char* bytecode, Lexeme* le
 	unsigned int i = 0;
 	for(; i < cache.size(); i++)
 	{
-		if(hash == cache[i].nameHash)
+		if(hash == cache[i].nameHash && strcmp(cache[i].name, path) == 0)
 			break;
 	}
 	assert(i == cache.size());
@@ -120,20 +123,18 @@ void BinaryCache::PutBytecode(const char* path, const char* bytecode, Lexeme* le
 	}
 }
 
-void BinaryCache::PutLexemes(const char* path, Lexeme* lexStart, unsigned lexCount)
+void BinaryCache::PutLexemes(const char* bytecode, Lexeme* lexStart, unsigned lexCount)
 {
-	unsigned int hash = NULLC::GetStringHash(path);
-
-	if(hash == lastHash)
+	if(bytecode == lastBytecode)
 		return;
 
 	for(unsigned i = 0; i < cache.size(); i++)
 	{
 		BinaryCache::CodeDescriptor &desc = cache[i];
 
-		if(hash == cache[i].nameHash)
+		if(bytecode == desc.binary)
 		{
-			assert(!cache[i].lexemes);
+			assert(!desc.lexemes);
 
 			desc.lexemes = new Lexeme[lexCount];
 			memcpy(desc.lexemes, lexStart, lexCount * sizeof(Lexeme));
@@ -155,7 +156,7 @@ const char* BinaryCache::GetBytecode(const char* path)
 	unsigned int i = 0;
 	for(; i < cache.size(); i++)
 	{
-		if(hash == cache[i].nameHash)
+		if(hash == cache[i].nameHash && strcmp(cache[i].name, path) == 0)
 			break;
 	}
 	if(i != cache.size())
@@ -212,7 +213,7 @@ Lexeme* BinaryCache::GetLexems(const char* path, unsigned& count)
 	unsigned int hash = NULLC::GetStringHash(path);
 	for(unsigned int i = 0; i < cache.size(); i++)
 	{
-		if(hash == cache[i].nameHash)
+		if(hash == cache[i].nameHash && strcmp(cache[i].name, path) == 0)
 		{
 			count = cache[i].lexemeCount;
 			return cache[i].lexemes;
@@ -249,8 +250,9 @@ Lexeme* BinaryCache::FindLexems(const char* moduleName, bool addExtension, unsig
 			NULLC::SafeSprintf(pathEnd, pathLength - int(pathEnd - path), ".nc");
 		}
 
-		if(Lexeme *lexems = BinaryCache::GetLexems(path, count))
-			return lexems;
+		// Lexemes have to come from the same module that is found by FindBytecode
+		if(BinaryCache::GetBytecode(path))
+			return BinaryCache::GetLexems(path, count);
 	}
 
 	return NULL;
@@ -262,7 +264,7 @@ void BinaryCache::RemoveBytecode(const char* path)
 	unsigned int i = 0;
 	for(; i < cache.size(); i++)
 	{
-		if(hash == cache[i].nameHash)
+		if(hash == cache[i].nameHash && strcmp(cache[i].name, path) == 0)
 			break;
 	}
 	if(i == cache.size())
diff --git a/NULLC/BinaryCache.h b/NULLC/BinaryCache.h
index 870c3a4..798bcc6 100644
--- a/NULLC/BinaryCache.h
+++ b/NULLC/BinaryCache.h
@@ -9,7 +9,7 @@ namespace BinaryCache
 	void Terminate();
 
 	void		PutBytecode(const char* path, const char* bytecode, Lexeme* lexStart, unsigned lexCount);
-	void		PutLexemes(const char* path, Lexeme* lexStart, unsigned lexCount);
+	void		PutLexemes(const char* bytecode, Lexeme* lexStart, unsigned lexCount);
 
 	const char*	GetBytecode(const char* path);
 
diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index cd9a2fa..cf5792f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12196,7 +12196,7 @@ void ImportModuleDependencies(ExpressionContext &ctx, SynBase *source, ModuleCon
 			lexStream = moduleData->lexer->GetStreamStart();
 			lexStreamSize = moduleData->lexer->GetStreamSize();
 
-			BinaryCache::PutLexemes(moduleFileName, lexStream, lexStreamSize);
+			BinaryCache::PutLexemes(bytecode, lexStream, lexStreamSize);
 		}
 
 		moduleData->lexStream = lexStream;
@@ -13258,7 +13258,7 @@ void ImportModule(ExpressionContext &ctx, SynBase *source, ByteCode* bytecode, L
 
 		assert(!*name.end);
 
-		BinaryCache::PutLexemes(name.begin, lexStream, lexStreamSize);
+		BinaryCache::PutLexemes((const char*)bytecode, lexStream, lexStreamSize);
 	}
 
 	moduleData->lexStream = lexStream;
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index cd0502e..e66a6c5 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -68,6 +68,7 @@ void Linker::CleanCode()
 	exSymbols.clear();
 	exLocals.clear();
 	exModules.clear();
+	exModulePaths.clear();
 	exSource.clear();
 	exImportPaths.clear();
 	exMainModuleName.clear();
@@ -147,7 +148,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 		int loadedId = -1;
 		for(unsigned int n = 0; n < exModules.size(); n++)
 		{
-			if(exModules[n].nameHash == NULLC::GetStringHash(path))
+			if(exModules[n].nameHash == NULLC::GetStringHash(path) && strcmp(exSymbols.data + exModulePaths[n], path) == 0)
 			{
 				loadedId = n;
 				break;
@@ -167,7 +168,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 
 				for(unsigned int n = 0; n < exModules.size(); n++)
 				{
-					if(exModules[n].nameHash == NULLC::GetStringHash(nestedModuleFileName))
+					if(exModules[n].nameHash == NULLC::GetStringHash(nestedModuleFileName) && strcmp(exSymbols.data + exModulePaths[n], nestedModuleFileName) == 0)
 					{
 						loadedId = n;
 						break;
@@ -213,6 +214,11 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			exModules.push_back(*mInfo);
 			exModules.back().nameOffset = 0;
 			exModules.back().nameHash = NULLC::GetStringHash(path);
+
+			// Module is identified by the name, two names can have the same hash
+			exModulePaths.push_back(exSymbols.size());
+			exSymbols.push_back(path, (unsigned)strlen(path) + 1);
+
 			exModules.back().funcStart = exFunctions.size() - mInfo->funcCount;
 			exModules.back().variableOffset = globalVarSize - ((ByteCode*)bytecode)->globalVarSize;
 			exModules.back().sourceOffset = exSource.size() - ((ByteCode*)bytecode)->sourceSize;
@@ -262,7 +268,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 
 		for(unsigned int n = 0; n < exModules.size(); n++)
 		{
-			if(exModules[n].nameHash == NULLC::GetStringHash(path))
+			if(exModules[n].nameHash == NULLC::GetStringHash(path) && strcmp(exSymbols.data + exModulePaths[n], path) == 0)
 			{
 				loadedId = n;
 				break;
@@ -281,7 +287,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 
 				for(unsigned int n = 0; n < exModules.size(); n++)
 				{
-					if(exModules[n].nameHash == NULLC::GetStringHash(nestedModuleFileName))
+					if(exModules[n].nameHash == NULLC::GetStringHash(nestedModuleFileName) && strcmp(exSymbols.data + exModulePaths[n], nestedModuleFileName) == 0)
 					{
 						loadedId = n;
 						break;
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index cc8a3f6..ae2bc0e 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -37,6 +37,7 @@ public:
 	FastVector<unsigned>			exFunctionExplicitTypes;
 	FastVector<ExternLocalInfo>		exLocals;
 	FastVector<ExternModuleInfo>	exModules;
+	FastVector<unsigned int>		exModulePaths;
 	FastVector<char>				exSymbols;
 	FastVector<char>				exSource;
 	FastVector<char>				exImportPaths;
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index e04357f..4385ba3 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -101,6 +101,7 @@ nullres nullcInitCustomAlloc(void* (*allocFunc)(int), void (*deallocFunc)(void*)
 	NULLC::alloc = allocFunc ? allocFunc : NULLC::defaultAlloc;
 	NULLC::dealloc = deallocFunc ? deallocFunc : NULLC::defaultDealloc;
 	NULLC::fileLoad = NULLC::defaultFileLoad;
+	NULLC::fileFree = NULLC::defaultFileFree;
 
 	errorBuf = (char*)NULLC::alloc(NULLC_ERROR_BUFFER_SIZE);
 	outputBuf = (char*)NULLC::alloc(NULLC_OUTPUT_BUFFER_SIZE);
@@ -422,9 +423,6 @@ nullres nullcLoadModuleBySource(const char* module, const char* code)
 			moduleRoot[i] = moduleRoot[i] == '.' ? '/' : moduleRoot[i];
 	}
 
-	if(!nullcCompileWithModuleRoot(code, *moduleRoot ? moduleRoot : NULL))
-		return false;
-
 	if(strlen(module) > 512)
 	{
 		nullcLastError = "ERROR: module name is too long";
@@ -445,6 +443,16 @@ nullres nullcLoadModuleBySource(const char* module, const char* code)
 		return false;
 	}
 
+	if(!nullcCompileWithModuleRoot(code, *moduleRoot ? moduleRoot : NULL))
+		return false;
+
+	// Module could have imported a file with the same name
+	if(BinaryCache::GetBytecode(path))
+	{
+		nullcLastError = "ERROR: module already loaded";
+		return false;
+	}
+
 	char *bytecode = NULL;
 	nullcGetBytecode(&bytecode);
 	nullcClean();
@@ -481,7 +489,7 @@ nullres nullcLoadModuleByBinary(const char* module, const char* binary)
 		return false;
 	}
 	// Duplicate binary
-	char *copy = (char*)NULLC::alloc(((ByteCode*)binary)->size);
+	char *copy = new char[((ByteCode*)binary)->size];
 	memcpy(copy, binary, ((ByteCode*)binary)->size);
 	binary = copy;
 	// Load it into cache
-- 
2.43.0


From 3b4bc176b4900ad840f4b2f31a09ede79ae6fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 50/59] fix: function calls and redirection by an invalid
 function id accessed memory out of bounds

---
 NULLC/Executor_X86.cpp |  4 ++++
 NULLC/nullc.cpp        | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index d771e61..6da2e0f 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -2021,6 +2021,10 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 
 void ExecutorX86::UpdateFunctionPointer(unsigned source, unsigned target)
 {
+	// Code can be linked while a different executor is selected
+	if(source >= functionAddress.count || target >= functionAddress.count)
+		return;
+
 	functionAddress[source] = functionAddress[target];
 
 	for(unsigned i = 0; i < expiredFunctionAddressLists.size(); i++)
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 4385ba3..53670be 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1056,6 +1056,12 @@ nullres nullcRunFunctionInternal(unsigned functionID, const char* argBuf)
 
 	nullres good = true;
 
+	if(functionID != ~0u && functionID >= linker->exFunctions.size())
+	{
+		nullcLastError = "ERROR: invalid function pointer";
+		return false;
+	}
+
 	if(currExec == NULLC_X86)
 	{
 #ifdef NULLC_BUILD_X86_JIT
@@ -1223,6 +1229,13 @@ nullres nullcCallFunction(NULLCFuncPtr ptr, ...)
 	using namespace NULLC;
 	NULLC_CHECK_INITIALIZED(false);
 
+	if(ptr.id == 0 || ptr.id >= linker->exFunctions.size())
+	{
+		nullcThrowError("ERROR: invalid function pointer");
+		nullcLastError = "ERROR: invalid function pointer";
+		return false;
+	}
+
 	// Copy arguments in argument buffer
 	va_list args;
 
@@ -1390,6 +1403,12 @@ nullres nullcSetFunction(const char* name, NULLCFuncPtr func)
 	if(index == ~0u)
 		return false;
 
+	if(func.id >= linker->exFunctions.size())
+	{
+		nullcLastError = "ERROR: invalid function pointer";
+		return false;
+	}
+
 	if(linker->exFunctions[func.id].funcCat != ExternFuncInfo::NORMAL)
 	{
 		nullcLastError = "ERROR: source function uses context, which is unavailable";
@@ -1410,6 +1429,12 @@ nullres nullcRedirectFunction(unsigned sourceId, unsigned targetId)
 	using namespace NULLC;
 	NULLC_CHECK_INITIALIZED(false);
 
+	if(sourceId >= linker->exFunctions.size() || targetId >= linker->exFunctions.size())
+	{
+		nullcLastError = "ERROR: invalid function pointer";
+		return false;
+	}
+
 #ifdef NULLC_BUILD_X86_JIT
 	if(currExec == NULLC_X86)
 		executorX86->UpdateFunctionPointer(sourceId, targetId);
-- 
2.43.0


From b1c790ac201da978b55385878e64f029c24d675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 51/59] fix: global variables were uninitialised between link
 and run and register VM globals unavailable before the first run

---
 NULLC/Executor_RegVm.cpp | 12 ++++++++++++
 NULLC/Executor_RegVm.h   |  1 +
 NULLC/Executor_X86.cpp   | 12 ++++++++++++
 NULLC/Executor_X86.h     |  2 ++
 NULLC/nullc.cpp          | 10 ++++++++++
 5 files changed, 37 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 09378be..8e54dbb 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1759,6 +1759,18 @@ NULLCRef ExecutorRegVm::GetErrorObject()
 	return execErrorObject;
 }
 
+// Global variables that were just linked are zero until the module code is executed
+void ExecutorRegVm::ClearGlobals(unsigned start)
+{
+	if(codeRunning || start >= exLinker->globalVarSize)
+		return;
+
+	dataStack.reserve(minStackSize);
+	dataStack.reserve(exLinker->globalVarSize);
+
+	memset(dataStack.data + start, 0, exLinker->globalVarSize - start);
+}
+
 char* ExecutorRegVm::GetVariableData(unsigned *count)
 {
 	if(count)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 1f513cb..4f9a28f 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -47,6 +47,7 @@ public:
 	bool	RemoveBreakpoint(unsigned instruction);
 
 	void	UpdateInstructionPointer();
+	void	ClearGlobals(unsigned start);
 
 private:
 	void	InitExecution();
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 6da2e0f..6013f2f 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1202,6 +1202,18 @@ bool ExecutorX86::SetStackSize(unsigned bytes)
 	return true;
 }
 
+// Global variables that were just linked are zero until the module code is executed
+void ExecutorX86::ClearGlobals(unsigned start)
+{
+	unsigned limit = unsigned(vmState.dataStackEnd - vmState.dataStackBase);
+	unsigned end = exLinker->globalVarSize < limit ? exLinker->globalVarSize : limit;
+
+	if(codeRunning || start >= end)
+		return;
+
+	NULLC::fillMemory(vmState.dataStackBase + start, 0, end - start);
+}
+
 void ExecutorX86::ClearNative()
 {
 	TRACE_SCOPE("x86", "ClearNative");
diff --git a/NULLC/Executor_X86.h b/NULLC/Executor_X86.h
index d2e5d39..3279740 100644
--- a/NULLC/Executor_X86.h
+++ b/NULLC/Executor_X86.h
@@ -55,6 +55,8 @@ public:
 	const char*	GetErrorMessage();
 	NULLCRef	GetErrorObject();
 
+	void		ClearGlobals(unsigned start);
+
 	char*		GetVariableData(unsigned int *count);
 
 	unsigned	GetCallStackAddress(unsigned frame);
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 53670be..5226654 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -740,6 +740,8 @@ nullres nullcLinkCodeWithModuleName(const char *bytecode, const char *moduleName
 	TRACE_SCOPE("nullc", "nullcLinkCode");
 
 #ifndef NULLC_NO_EXECUTOR
+	unsigned oldGlobalVarSize = linker->globalVarSize;
+
 	if(!linker->LinkCode(bytecode, moduleName, true))
 	{
 		nullcLastError = linker->GetLinkError();
@@ -809,7 +811,15 @@ nullres nullcLinkCodeWithModuleName(const char *bytecode, const char *moduleName
 
 #ifndef NULLC_NO_EXECUTOR
 	if(currExec == NULLC_REG_VM)
+	{
 		executorRegVm->UpdateInstructionPointer();
+		executorRegVm->ClearGlobals(oldGlobalVarSize);
+	}
+
+#ifdef NULLC_BUILD_X86_JIT
+	if(currExec == NULLC_X86)
+		executorX86->ClearGlobals(oldGlobalVarSize);
+#endif
 
 #ifdef NULLC_BUILD_X86_JIT
 	if(enableExternalDebugger)
-- 
2.43.0


From 5af7e2f80eb614fef94321b84a3c14345ce49675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 52/59] fix: results of a previous or failed compilation were
 used by code generation requests

---
 NULLC/nullc.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5226654..a737097 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -277,7 +277,9 @@ nullres	nullcBindModuleFunction(const char* module, void (*ptr)(), const char* n
 	TRACE_SCOPE("nullc", "nullcBindModuleFunction");
 	TRACE_LABEL(module);
 
-	assert(!compilerCtx);
+	// Allocator is shared with the last compilation
+	NULLC::destruct(compilerCtx);
+	compilerCtx = NULL;
 
 	const char *errorPos = NULL;
 
@@ -306,7 +308,9 @@ nullres nullcBindModuleFunctionWrapper(const char* module, void *func, void (*pt
 	TRACE_SCOPE("nullc", "nullcBindModuleFunctionWrapper");
 	TRACE_LABEL(module);
 
-	assert(!compilerCtx);
+	// Allocator is shared with the last compilation
+	NULLC::destruct(compilerCtx);
+	compilerCtx = NULL;
 
 	assert(func);
 
@@ -635,6 +639,12 @@ unsigned nullcGetBytecode(char **bytecode)
 		return 0;
 	}
 
+	if(compilerCtx->instRegVmFinalizeCtx.cmds.empty())
+	{
+		nullcLastError = "ERROR: there is no compiled module in the compiler context";
+		return 0;
+	}
+
 	unsigned size = GetBytecode(*compilerCtx, bytecode);
 
 	// Load it into cache
@@ -655,6 +665,12 @@ unsigned nullcGetBytecodeNoCache(char **bytecode)
 		return 0;
 	}
 
+	if(compilerCtx->instRegVmFinalizeCtx.cmds.empty())
+	{
+		nullcLastError = "ERROR: there is no compiled module in the compiler context";
+		return 0;
+	}
+
 	return GetBytecode(*compilerCtx, bytecode);
 }
 
@@ -693,6 +709,12 @@ nullres	nullcTranslateToC(const char *fileName, const char *mainName, void (*add
 		return 0;
 	}
 
+	if(!compilerCtx->exprModule || compilerCtx->exprCtx.errorCount != 0 || compilerCtx->parseCtx.errorCount != 0)
+	{
+		nullcLastError = "ERROR: there is no compiled module in the compiler context";
+		return 0;
+	}
+
 	if(!TranslateToC(*compilerCtx, fileName, mainName, addDependency))
 	{
 		nullcLastError = compilerCtx->errorBuf;
@@ -1759,6 +1781,12 @@ nullres nullcTestEvaluateExpressionTree(char *resultBuf, unsigned resultBufSize)
 		return 0;
 	}
 
+	if(!compilerCtx->exprModule || compilerCtx->exprCtx.errorCount != 0 || compilerCtx->parseCtx.errorCount != 0)
+	{
+		nullcLastError = "ERROR: there is no compiled module in the compiler context";
+		return 0;
+	}
+
 	if(!TestEvaluation(compilerCtx->exprCtx, compilerCtx->exprModule, resultBuf, resultBufSize, compilerCtx->errorBuf, compilerCtx->errorBufSize))
 	{
 		nullcLastError = compilerCtx->errorBuf;
@@ -1781,6 +1809,12 @@ nullres nullcTestEvaluateInstructionTree(char *resultBuf, unsigned resultBufSize
 		return 0;
 	}
 
+	if(!compilerCtx->vmModule)
+	{
+		nullcLastError = "ERROR: there is no compiled module in the compiler context";
+		return 0;
+	}
+
 	if(!TestEvaluation(compilerCtx->exprCtx, compilerCtx->vmModule, resultBuf, resultBufSize, compilerCtx->errorBuf, compilerCtx->errorBufSize))
 	{
 		nullcLastError = compilerCtx->errorBuf;
-- 
2.43.0


From 63f358da41d0e1323b399a0e20dc1edbfa354432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 53/59] fix: executor state left by an earlier run or a failed
 translation changed later runs

---
 NULLC/Executor_RegVm.cpp | 25 +++++++++++++++++++++----
 NULLC/Executor_X86.cpp   | 21 +++++++++++++++++++--
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 8e54dbb..6d67fa5 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -122,8 +122,13 @@ void ExecutorRegVm::InitExecution()
 	callContinue = true;
 
 	// Add return after the last instruction to end execution of code with no return at the end
-	exLinker->exRegVmCode.push_back(RegVmCmd(rviReturn, 0, rvrError, 0, 0));
-	exLinker->exRegVmExecCount.push_back(0);
+	RegVmCmd &lastCmd = exLinker->exRegVmCode.back();
+
+	if(lastCmd.code != rviReturn || lastCmd.rB != rvrError)
+	{
+		exLinker->exRegVmCode.push_back(RegVmCmd(rviReturn, 0, rvrError, 0, 0));
+		exLinker->exRegVmExecCount.push_back(0);
+	}
 
 	if(!tempStackArrayBase)
 	{
@@ -334,6 +339,9 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 		return false;
 	}
 
+	if(lastFinalReturn == 0)
+		codeRunning = false;
+
 	lastFinalReturn = prevLastFinalReturn;
 
 	if(functionID != ~0u)
@@ -372,6 +380,8 @@ void ExecutorRegVm::Stop(const char* error)
 
 	callContinue = false;
 
+	execErrorFinalReturnDepth = callStack.size();
+
 	NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "%s", error);
 
 	execErrorMessage = execErrorBuffer;
@@ -386,6 +396,8 @@ void ExecutorRegVm::Stop(NULLCRef error)
 
 	callContinue = false;
 
+	execErrorFinalReturnDepth = callStack.size();
+
 	NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "%s", exLinker->exSymbols.data + exTypes[error.typeID].offsetToName);
 
 	execErrorMessage = execErrorBuffer;
@@ -398,9 +410,14 @@ void ExecutorRegVm::Stop(NULLCRef error)
 
 void ExecutorRegVm::Resume()
 {
-	callStack.shrink(execErrorFinalReturnDepth);
+	if(!execErrorMessage)
+		return;
 
-	codeRunning = true;
+	if(execErrorFinalReturnDepth < callStack.size())
+		callStack.shrink(execErrorFinalReturnDepth);
+
+	// Execution continues only when the error is handled inside of it
+	codeRunning = callStack.size() != 0;
 
 	callContinue = true;
 
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 6013f2f..b516b04 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -734,6 +734,7 @@ bool ExecutorX86::Initialize()
 		vmState.callStackBase = (CodeGenRegVmCallStackEntry*)NULLC::alloc(sizeof(CodeGenRegVmCallStackEntry) * 1024 * 2 + 8192); // Two extra pages for page guard
 		NULLC::fillMemory(vmState.callStackBase, 0, sizeof(CodeGenRegVmCallStackEntry) * 1024 * 2);
 		vmState.callStackEnd = vmState.callStackBase + 1024 * 2;
+		vmState.callStackTop = vmState.callStackBase;
 	}
 
 	if(!vmState.tempStackArrayBase)
@@ -826,6 +827,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		return false;
 	}
 
+	// Code can be linked while a different executor is selected
+	if(binCodeSize == 0)
+	{
+		Stop("ERROR: code was not translated for this executor");
+		return false;
+	}
+
 	bool firstRun = !codeRunning || functionID == ~0u;
 
 	if(firstRun)
@@ -1144,6 +1152,8 @@ void ExecutorX86::Stop(const char* error)
 
 	callContinue = false;
 
+	execErrorFinalReturnDepth = unsigned(vmState.callStackTop - vmState.callStackBase);
+
 	NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "%s", error);
 
 	execErrorMessage = execErrorBuffer;
@@ -1158,6 +1168,8 @@ void ExecutorX86::Stop(NULLCRef error)
 
 	callContinue = false;
 
+	execErrorFinalReturnDepth = unsigned(vmState.callStackTop - vmState.callStackBase);
+
 	NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "%s", exLinker->exSymbols.data + exTypes[error.typeID].offsetToName);
 
 	execErrorMessage = execErrorBuffer;
@@ -1170,9 +1182,14 @@ void ExecutorX86::Stop(NULLCRef error)
 
 void ExecutorX86::Resume()
 {
-	vmState.callStackTop = vmState.callStackBase + execErrorFinalReturnDepth;
+	if(!execErrorMessage)
+		return;
 
-	codeRunning = true;
+	if(execErrorFinalReturnDepth < unsigned(vmState.callStackTop - vmState.callStackBase))
+		vmState.callStackTop = vmState.callStackBase + execErrorFinalReturnDepth;
+
+	// Execution continues only when the error is handled inside of it
+	codeRunning = vmState.callStackTop != vmState.callStackBase;
 
 	callContinue = true;
 
-- 
2.43.0


From 2c094da3d1b54faca932c9ac99f12b34e9512227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:50 +0000
Subject: [PATCH 54/59] fix: final return was not added to programs without
 global code that end with an error return

---
 NULLC/Executor_RegVm.cpp | 6 +++---
 NULLC/Linker.cpp         | 3 +++
 NULLC/Linker.h           | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 6d67fa5..d8db2ad 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -122,12 +122,12 @@ void ExecutorRegVm::InitExecution()
 	callContinue = true;
 
 	// Add return after the last instruction to end execution of code with no return at the end
-	RegVmCmd &lastCmd = exLinker->exRegVmCode.back();
-
-	if(lastCmd.code != rviReturn || lastCmd.rB != rvrError)
+	if(exLinker->exRegVmFinalReturn != exLinker->exRegVmCode.size())
 	{
 		exLinker->exRegVmCode.push_back(RegVmCmd(rviReturn, 0, rvrError, 0, 0));
 		exLinker->exRegVmExecCount.push_back(0);
+
+		exLinker->exRegVmFinalReturn = exLinker->exRegVmCode.size();
 	}
 
 	if(!tempStackArrayBase)
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e66a6c5..49aac08 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -43,6 +43,8 @@ Linker::Linker(): exTypes(128), exTypeExtra(256), exTypeConstants(256), exVariab
 {
 	globalVarSize = 0;
 
+	exRegVmFinalReturn = 0;
+
 	typeMap.init();
 	funcMap.init();
 
@@ -74,6 +76,7 @@ void Linker::CleanCode()
 	exMainModuleName.clear();
 
 	exRegVmCode.clear();
+	exRegVmFinalReturn = 0;
 	exRegVmSourceInfo.clear();
 	exRegVmExecCount.clear();
 	exRegVmConstants.clear();
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index ae2bc0e..d03eee7 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -44,6 +44,7 @@ public:
 	FastVector<char>				exMainModuleName;
 
 	FastVector<RegVmCmd>			exRegVmCode;
+	unsigned						exRegVmFinalReturn; // Size of the code after the final return instruction was added, 0 if it is missing
 	FastVector<ExternSourceInfo>	exRegVmSourceInfo;
 	FastVector<unsigned int>		exRegVmExecCount;
 	FixedArray<unsigned int, 256>	exRegVmInstructionExecCount;
-- 
2.43.0


From f38912ecbde3c011cfedf90c908e9bd923a59a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 55/59] fix: class arguments and results of raw external
 functions and host to script calls were marshalled incorrectly

---
 NULLC/Executor_Common.cpp | 209 +++++++++++++++++++++++---------------
 NULLC/Executor_Common.h   |   4 +-
 NULLC/nullc.cpp           |  56 +++++++---
 NULLC/nullcdef.h          |   1 +
 4 files changed, 172 insertions(+), 98 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index fbc8d98..076c8d4 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -57,78 +57,110 @@ unsigned ConvertFromAutoRef(unsigned int target, unsigned int source)
 	return 0;
 }
 
-bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+static bool IsTypeAligned(unsigned typeId, unsigned offset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
-	bool aligned = 1;
-	for(unsigned m = 0; m < lType->memberCount; m++)
+	ExternTypeInfo &type = exTypes[typeId];
+
+	// Built-in types with a pointer after the type id
+	if(typeId == NULLC_TYPE_AUTO_REF || typeId == NULLC_TYPE_AUTO_ARRAY)
+		return (offset + 4) % NULLC_PTR_SIZE == 0;
+
+	switch(type.type)
 	{
-		ExternMemberInfo &member = exTypeExtra[lType->memberOffset + m];
-		ExternTypeInfo &memberType = exTypes[member.type];
-		unsigned pos = member.offset;
+	case ExternTypeInfo::TYPE_COMPLEX:
+		if(type.subCat == ExternTypeInfo::CAT_CLASS)
+			return AreMembersAligned(type, offset, exTypes, exTypeExtra);
 
-		switch(memberType.type)
+		if(type.subCat == ExternTypeInfo::CAT_ARRAY && type.arrSize != ~0u)
 		{
-		case ExternTypeInfo::TYPE_COMPLEX:
-			break;
-		case ExternTypeInfo::TYPE_VOID:
-			break;
-		case ExternTypeInfo::TYPE_INT:
-			if(pos % 4 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_FLOAT:
-			break;
-		case ExternTypeInfo::TYPE_LONG:
-			if(pos % 8 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_DOUBLE:
-			break;
-		case ExternTypeInfo::TYPE_SHORT:
-			if(pos % 2 != 0)
-				aligned = 0;
-			break;
-		case ExternTypeInfo::TYPE_CHAR:
-			break;
+			// Element positions repeat in respect to alignment
+			for(unsigned i = 0; i < type.arrSize && i < 8; i++)
+			{
+				if(!IsTypeAligned(type.subType, offset + i * exTypes[type.subType].size, exTypes, exTypeExtra))
+					return false;
+			}
+
+			return true;
 		}
-		pos += memberType.size;
+
+		// Function pointers and arrays start with a pointer
+		if(type.subCat == ExternTypeInfo::CAT_ARRAY || type.subCat == ExternTypeInfo::CAT_FUNCTION)
+			return offset % NULLC_PTR_SIZE == 0;
+
+		return true;
+	case ExternTypeInfo::TYPE_VOID:
+	case ExternTypeInfo::TYPE_CHAR:
+		return true;
+	case ExternTypeInfo::TYPE_SHORT:
+		return offset % 2 == 0;
+	case ExternTypeInfo::TYPE_INT:
+	case ExternTypeInfo::TYPE_FLOAT:
+		return offset % 4 == 0;
+	case ExternTypeInfo::TYPE_LONG:
+	case ExternTypeInfo::TYPE_DOUBLE:
+		return offset % 8 == 0;
 	}
-	//printf("%s\n", aligned ? "aligned" : "unaligned");
-	return aligned;
+
+	return true;
 }
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+bool AreMembersAligned(ExternTypeInfo &type, unsigned offset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
 	for(unsigned m = 0; m < type.memberCount; m++)
 	{
 		ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
 
-		ExternTypeInfo &memberType = exTypes[member.type];
+		if(!IsTypeAligned(member.type, offset + member.offset, exTypes, exTypeExtra))
+			return false;
+	}
 
-		if(memberType.type == ExternTypeInfo::TYPE_COMPLEX)
-		{
-			// Handle opaque types
-			bool opaqueType = memberType.subCat != ExternTypeInfo::CAT_CLASS || memberType.memberCount == 0;
+	return true;
+}
 
-			if(opaqueType)
+bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+{
+	if(fromOffset >= int(type.size) || toOffset <= 0)
+		return false;
+
+	switch(type.type)
+	{
+	case ExternTypeInfo::TYPE_FLOAT:
+	case ExternTypeInfo::TYPE_DOUBLE:
+		return false;
+	case ExternTypeInfo::TYPE_COMPLEX:
+		if(type.subCat == ExternTypeInfo::CAT_CLASS && type.memberCount != 0)
+		{
+			for(unsigned m = 0; m < type.memberCount; m++)
 			{
-				if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
+				ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+
+				if(HasIntegerMembersInRange(exTypes[member.type], fromOffset - int(member.offset), toOffset - int(member.offset), exTypes, exTypeExtra))
 					return true;
 			}
-			else
+
+			return false;
+		}
+
+		if(type.subCat == ExternTypeInfo::CAT_ARRAY && type.arrSize != ~0u)
+		{
+			ExternTypeInfo &elementType = exTypes[type.subType];
+
+			for(unsigned i = 0; i < type.arrSize && int(i * elementType.size) < toOffset; i++)
 			{
-				if(HasIntegerMembersInRange(memberType, fromOffset - member.offset, toOffset - member.offset, exTypes, exTypeExtra))
+				if(HasIntegerMembersInRange(elementType, fromOffset - int(i * elementType.size), toOffset - int(i * elementType.size), exTypes, exTypeExtra))
 					return true;
 			}
+
+			return false;
 		}
-		else if(memberType.type != ExternTypeInfo::TYPE_FLOAT && memberType.type != ExternTypeInfo::TYPE_DOUBLE)
-		{
-			if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
-				return true;
-		}
+
+		// Other types are opaque
+		return true;
+	default:
+		break;
 	}
 
-	return false;
+	return true;
 }
 
 unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, bool withVariables)
@@ -1296,34 +1328,41 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 
 	unsigned *stackStart = argumentStorage;
 
-	dcReset(dcCallVM);
-
 	ExternTypeInfo &funcType = exTypes[func.funcType];
 
 	ExternMemberInfo &member = exTypeExtra[funcType.memberOffset];
 	ExternTypeInfo &returnType = exTypes[member.type];
 
 #if defined(_WIN64)
-	bool returnByPointer = func.returnShift > 1;
+	bool returnByPointer = returnType.size > 4;
 #elif !defined(_M_X64)
 	bool returnByPointer = true;
 #elif defined(__aarch64__)
 	bool returnByPointer = false;
 
-	bool opaqueType = returnType.subCat != ExternTypeInfo::CAT_CLASS || returnType.memberCount == 0;
-
-	bool firstQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 0, 8, exTypes, exTypeExtra);
-	bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
+	bool firstQwordInteger = HasIntegerMembersInRange(returnType, 0, 8, exTypes, exTypeExtra);
+	bool secondQwordInteger = HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
 #else
-	bool returnByPointer = func.returnShift > 4 || member.type == NULLC_TYPE_AUTO_REF || (returnType.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(&returnType, exTypes, exTypeExtra));
+	bool returnByPointer = returnType.size > 16 || member.type == NULLC_TYPE_AUTO_REF || (returnType.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(returnType, 0, exTypes, exTypeExtra));
 
-	bool opaqueType = returnType.subCat != ExternTypeInfo::CAT_CLASS || returnType.memberCount == 0;
-
-	bool firstQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 0, 8, exTypes, exTypeExtra);
-	bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
+	bool firstQwordInteger = HasIntegerMembersInRange(returnType, 0, 8, exTypes, exTypeExtra);
+	bool secondQwordInteger = HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
 #endif
 
-	unsigned ret[128];
+	// Results that don't fit into the local buffer are placed in a heap allocation
+	unsigned retBuf[128];
+	unsigned *ret = returnType.size > sizeof(retBuf) ? (unsigned*)NULLC::alloc(returnType.size) : retBuf;
+
+	// Calls with a lot of arguments require a larger argument buffer
+	DCCallVM *largeCallVM = NULL;
+
+	if(func.argumentSize + func.paramCount * 8 > 3072)
+	{
+		largeCallVM = dcNewCallVM(func.argumentSize + func.paramCount * 8 + 1024);
+		dcCallVM = largeCallVM;
+	}
+
+	dcReset(dcCallVM);
 
 	if(retType == ExternFuncInfo::RETURN_UNKNOWN && returnByPointer)
 		dcArgPointer(dcCallVM, ret);
@@ -1353,7 +1392,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			else
 			{
 				dcArgPointer(dcCallVM, stackStart);
-				stackStart += tInfo.size / 4;
+				stackStart += (tInfo.size + 3) / 4;
 			}
 #elif defined(__aarch64__)
 			if(tInfo.size <= 4)
@@ -1382,20 +1421,18 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			else
 			{
 				dcArgPointer(dcCallVM, stackStart);
-				stackStart += tInfo.size / 4;
+				stackStart += (tInfo.size + 3) / 4;
 			}
 #elif defined(_M_X64)
-			if(tInfo.size > 16 || lInfo.type == NULLC_TYPE_AUTO_REF || (tInfo.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(&tInfo, exTypes, exTypeExtra)))
+			if(tInfo.size > 16 || lInfo.type == NULLC_TYPE_AUTO_REF || (tInfo.subCat == ExternTypeInfo::CAT_CLASS && !AreMembersAligned(tInfo, 0, exTypes, exTypeExtra)))
 			{
 				dcArgStack(dcCallVM, stackStart, (tInfo.size + 7) & ~7);
-				stackStart += tInfo.size / 4;
+				stackStart += (tInfo.size + 3) / 4;
 			}
 			else
 			{
-				bool opaqueType = tInfo.subCat != ExternTypeInfo::CAT_CLASS || tInfo.memberCount == 0;
-
-				bool firstQwordInteger = opaqueType || HasIntegerMembersInRange(tInfo, 0, 8, exTypes, exTypeExtra);
-				bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(tInfo, 8, 16, exTypes, exTypeExtra);
+				bool firstQwordInteger = HasIntegerMembersInRange(tInfo, 0, 8, exTypes, exTypeExtra);
+				bool secondQwordInteger = HasIntegerMembersInRange(tInfo, 8, 16, exTypes, exTypeExtra);
 
 				if(tInfo.size <= 4)
 				{
@@ -1440,7 +1477,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 					}
 				}
 
-				stackStart += tInfo.size / 4;
+				stackStart += (tInfo.size + 3) / 4;
 			}
 #else
 			if(tInfo.size <= 4)
@@ -1525,19 +1562,19 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			dcCallVoid(dcCallVM, fPtr);
 
 			// copy return value on top of the stack
-			memcpy(newStackPtr, ret, func.returnShift * 4);
+			memcpy(newStackPtr, ret, returnType.size);
 		}
 #elif !defined(_M_X64)
 		dcCallPointer(dcCallVM, fPtr);
 
 		// copy return value on top of the stack
-		memcpy(newStackPtr, ret, func.returnShift * 4);
+		memcpy(newStackPtr, ret, returnType.size);
 #elif defined(__aarch64__)
-		if(func.returnShift > 4)
+		if(returnType.size > 16)
 		{
 			DCcomplexbig res = dcCallComplexBig(dcCallVM, fPtr);
 
-			memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+			memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 		}
 		else
 		{
@@ -1545,25 +1582,25 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			{
 				DCcomplexdd res = dcCallComplexDD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else if(firstQwordInteger && !secondQwordInteger)
 			{
 				DCcomplexld res = dcCallComplexLD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else if(!firstQwordInteger && secondQwordInteger)
 			{
 				DCcomplexdl res = dcCallComplexDL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else
 			{
 				DCcomplexll res = dcCallComplexLL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 		}
 #else
@@ -1572,7 +1609,7 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			dcCallPointer(dcCallVM, fPtr);
 
 			// copy return value on top of the stack
-			memcpy(newStackPtr, ret, func.returnShift * 4);
+			memcpy(newStackPtr, ret, returnType.size);
 		}
 		else
 		{
@@ -1580,30 +1617,36 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 			{
 				DCcomplexdd res = dcCallComplexDD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else if(firstQwordInteger && !secondQwordInteger)
 			{
 				DCcomplexld res = dcCallComplexLD(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else if(!firstQwordInteger && secondQwordInteger)
 			{
 				DCcomplexdl res = dcCallComplexDL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 			else
 			{
 				DCcomplexll res = dcCallComplexLL(dcCallVM, fPtr);
 
-				memcpy(newStackPtr, &res, func.returnShift * 4); // copy return value on top of the stack
+				memcpy(newStackPtr, &res, returnType.size); // copy return value on top of the stack
 			}
 		}
 #endif
 		break;
 	}
+
+	if(ret != retBuf)
+		NULLC::dealloc(ret);
+
+	if(largeCallVM)
+		dcFree(largeCallVM);
 }
 #endif
 
diff --git a/NULLC/Executor_Common.h b/NULLC/Executor_Common.h
index 0a13388..04b040f 100644
--- a/NULLC/Executor_Common.h
+++ b/NULLC/Executor_Common.h
@@ -13,9 +13,9 @@ void CommonSetLinker(Linker* linker);
 
 unsigned ConvertFromAutoRef(unsigned int source, unsigned int target);
 
-bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
+bool AreMembersAligned(ExternTypeInfo &type, unsigned offset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
+bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
 
 unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, bool withVariables);
 void DumpStackFrames();
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index a737097..510e11e 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -131,7 +131,7 @@ nullres nullcInitCustomAlloc(void* (*allocFunc)(int), void (*deallocFunc)(void*)
 	executorRegVm = new(NULLC::alloc(sizeof(ExecutorRegVm))) ExecutorRegVm(linker);
 #endif
 
-	argBuf = (char*)NULLC::alloc(64 * 1024);
+	argBuf = (char*)NULLC::alloc(NULLC_ARGUMENT_BUFFER_SIZE + 64);
 
 #ifndef NULLC_NO_EXECUTOR
 	nullcInitTypeinfoModuleLinkerOnly(linker);
@@ -925,6 +925,13 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 
 	// Copy arguments in argument buffer
 	ExternFuncInfo	&func = linker->exFunctions[functionID];
+
+	if(func.argumentSize > NULLC_ARGUMENT_BUFFER_SIZE)
+	{
+		nullcLastError = "ERROR: function arguments don't fit into the argument buffer";
+		return NULL;
+	}
+
 	char *argPos = argBuf;
 	for(unsigned i = 0; i < func.paramCount; i++)
 	{
@@ -1000,34 +1007,57 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 				argPos += sizeof(NULLCAutoArray);
 			}else if(tInfo.subCat == ExternTypeInfo::CAT_CLASS){
 				ExternMemberInfo *memberList = &linker->exTypeExtra[tInfo.memberOffset];
+
+				// Members are passed one by one and placed at their positions inside the class
+				memset(argPos, 0, tInfo.size);
+
 				for(unsigned k = 0; k < tInfo.memberCount; k++)
 				{
 					const ExternTypeInfo &subType = linker->exTypes[memberList[k].type];
+					char *memberPos = argPos + memberList[k].offset;
+
 					switch(subType.type)
 					{
 					case ExternTypeInfo::TYPE_CHAR:
+						*memberPos = (char)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_SHORT:
+					{
+						short value = (short)va_arg(args, int);
+						memcpy(memberPos, &value, sizeof(value));
+					}
+					break;
 					case ExternTypeInfo::TYPE_INT:
-						*(int*)argPos = va_arg(args, int);
-						argPos += 4;
-						break;
+					{
+						int value = va_arg(args, int);
+						memcpy(memberPos, &value, sizeof(value));
+					}
+					break;
 					case ExternTypeInfo::TYPE_LONG:
-						*(long long*)argPos = va_arg(args, long long);
-						argPos += 8;
-						break;
+					{
+						long long value = va_arg(args, long long);
+						memcpy(memberPos, &value, sizeof(value));
+					}
+					break;
 					case ExternTypeInfo::TYPE_FLOAT:
-						*(float*)argPos = (float)va_arg(args, double);
-						argPos += 4;
-						break;
+					{
+						float value = (float)va_arg(args, double);
+						memcpy(memberPos, &value, sizeof(value));
+					}
+					break;
 					case ExternTypeInfo::TYPE_DOUBLE:
-						*(double*)argPos = va_arg(args, double);
-						argPos += 8;
-						break;
+					{
+						double value = va_arg(args, double);
+						memcpy(memberPos, &value, sizeof(value));
+					}
+					break;
 					default:
 						nullcLastError = "ERROR: unsupported complex function parameter";
 						return NULL;
 					}
 				}
+
+				argPos += (tInfo.size + 3) & ~3u;
 			}else{
 				nullcLastError = "ERROR: unsupported complex function parameter";
 				return NULL;
diff --git a/NULLC/nullcdef.h b/NULLC/nullcdef.h
index fdc1f87..237d46e 100644
--- a/NULLC/nullcdef.h
+++ b/NULLC/nullcdef.h
@@ -38,6 +38,7 @@ struct NULLCAutoArray
 #define NULLC_MAX_TYPE_NAME_LENGTH 8192
 #define NULLC_DEFAULT_GLOBAL_MEMORY_LIMIT 1024 * 1024 * 1024
 #define NULLC_ERROR_BUFFER_SIZE 64 * 1024
+#define NULLC_ARGUMENT_BUFFER_SIZE 64 * 1024
 #define NULLC_OUTPUT_BUFFER_SIZE 8 * 1024
 #define NULLC_TEMP_OUTPUT_BUFFER_SIZE 16 * 1024
 #define NULLC_MAX_GENERIC_INSTANCE_DEPTH 64
-- 
2.43.0


From 8a19ac985fdeaffece8ba041c88e27f913ce34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 56/59] fix: load propagation and load merging used a value of
 a different type

---
 NULLC/InstructionTreeVm.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 0f2ea27..ba284e7 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1699,6 +1699,8 @@ namespace
 
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
+		unsigned valueSize = loadCmd == VM_INST_LOAD_FLOAT ? 8 : loadSize;
+
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
 		{
 			if(!loadAddress->container)
@@ -1717,6 +1719,10 @@ namespace
 					{
 						assert(el.loadInst->parent);
 
+						// Can't reuse a value of a different size (float member is loaded as a double)
+						if(el.loadInst->type.size != valueSize)
+							return NULL;
+
 						return el.loadInst;
 					}
 				}
@@ -1759,6 +1765,9 @@ namespace
 					{
 						assert(el.loadInst->parent);
 
+						if(el.loadInst->type.size != valueSize)
+							return NULL;
+
 						return el.loadInst;
 					}
 				}
@@ -5659,7 +5668,13 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 				unsigned accessSize = GetAccessSize(curr);
 
 				if(VmValue* prevValue = GetLoadStoreInfo(module, loadPointer, loadOffset, loadSize, accessSize, VmInstructionType(loadInst->iValue)))
-					ChangeInstructionTo(module, curr, GetOperationWithoutLoad(curr->cmd), curr->arguments[0], prevValue, NULL, NULL, NULL, &module->loadStorePropagations);
+				{
+					VmType loadType = loadInst->iValue == VM_INST_LOAD_INT ? VmType::Int : loadInst->iValue == VM_INST_LOAD_LONG ? VmType::Long : VmType::Double;
+
+					// Operation argument has to have the type that is expected by the operation
+					if(prevValue->type == loadType)
+						ChangeInstructionTo(module, curr, GetOperationWithoutLoad(curr->cmd), curr->arguments[0], prevValue, NULL, NULL, NULL, &module->loadStorePropagations);
+				}
 			}
 				break;
 			default:
-- 
2.43.0


From d6021de342f1f8578b567165948a40807cbf8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 57/59] fix: null references, failed allocations and element
 positions were not checked by dynamic reference and array functions

---
 NULLC/StdLib.cpp | 105 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 92 insertions(+), 13 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index dd08951..dac56c4 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -906,11 +906,23 @@ void NULLC::Assert2(int val, NULLCArray message)
 
 NULLCRef NULLC::CopyObject(NULLCRef ptr)
 {
-	NULLCRef ret;
+	NULLCRef ret = { 0, 0 };
+
+	unsigned int objSize = linker->exTypes[ptr.typeID].size;
+
+	if(!ptr.ptr)
+	{
+		if(objSize)
+			nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
+
+	char *copy = (char*)AllocObject(objSize, ptr.typeID);
+	if(!copy)
+		return ret;
+	memcpy(copy, ptr.ptr, objSize);
 	ret.typeID = ptr.typeID;
-	unsigned int objSize = linker->exTypes[ret.typeID].size;
-	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
-	memcpy(ret.ptr, ptr.ptr, objSize);
+	ret.ptr = copy;
 	return ret;
 }
 
@@ -921,9 +933,13 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		nullcThrowError("ERROR: null pointer access");
 		return;
 	}
+	char *copy = NULLC::AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID).ptr;
+	if(!copy)
+		return;
+
 	dst->typeID = src.typeID;
 	dst->len = src.len;
-	dst->ptr = NULLC::AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID).ptr;
+	dst->ptr = copy;
 
 	if(src.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
@@ -936,7 +952,12 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
-	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
+	if((!l.ptr || !r.ptr) && linker->exTypes[l.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
+	memmove(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
 	return l;
 }
 
@@ -947,11 +968,21 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[l.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+	if(l.ptr == r.ptr)
+		return;
+
 	unsigned size = linker->exTypes[l.typeID].size;
 
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
 	memcpy(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
@@ -964,16 +995,26 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[l.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
 }
 
 void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 {
-	if(linker->exTypes[l.typeID].subType != r.typeID)
+	if(linker->exTypes[l.typeID].subCat != ExternTypeInfo::CAT_POINTER || linker->exTypes[l.typeID].subType != r.typeID)
 	{
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -1363,7 +1404,7 @@ NULLC::TypeIDHelper NULLC::Typeid(NULLCRef r)
 {
 	TypeIDHelper help;
 
-	if(linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+	if(r.ptr && (linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE))
 		help.id = *(int*)r.ptr;
 	else
 		help.id = r.typeID;
@@ -1457,6 +1498,11 @@ NULLCAutoArray* NULLC::AutoArrayAssign(NULLCAutoArray* left, NULLCRef right)
 		nullcThrowError("ERROR: null pointer access");
 		return 0;
 	}
+	if(!right.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(right.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*left = *(NULLCAutoArray*)right.ptr;
@@ -1491,10 +1537,15 @@ NULLCRef NULLC::AutoArrayAssignRev(NULLCRef left, NULLCAutoArray *right)
 		nullcThrowError("ERROR: null pointer access");
 		return ret;
 	}
+	if(!left.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	if(left.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*(NULLCAutoArray*)left.ptr = *right;
-		return ret;
+		return left;
 	}
 	if(!nullcIsArray(left.typeID))
 	{
@@ -1558,9 +1609,13 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 		return;
 	}
 
+	char *data = AllocArray(linker->exTypes[type].size, count, type).ptr;
+	if(!data)
+		return;
+
 	arr->typeID = type;
 	arr->len = count;
-	arr->ptr = AllocArray(linker->exTypes[type].size, count, type).ptr;
+	arr->ptr = data;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
@@ -1576,13 +1631,24 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 		return;
 	}
 
+	if(!x.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+	if(pos >= 0x7fffffff)
+	{
+		nullcThrowError("ERROR: array index out of bounds");
+		return;
+	}
+
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
 	if(pos >= arr->len)
 	{
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
-		NULLCAutoArray n;
+			newSize = pos + 1;
+		NULLCAutoArray n = { 0, 0, 0 };
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
 			return;
@@ -1614,8 +1680,13 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 		nullcThrowError("Argument is not a function");
 		return 0;
 	}
+	if(!f.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
-	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
+	if(!fPtr->context || linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 	{
 		nullcThrowError("Function is not a coroutine");
 		return 0;
@@ -1628,7 +1699,15 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
+	{
 		nullcThrowError("Argument is not a function");
+		return;
+	}
+	if(!f.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
-- 
2.43.0


From 863587dc01d19b01e66ccb8543f3113ab108f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 58/59] fix: conversion of a virtual method to a function type
 ignored overrides and asserted on inherited methods

---
 NULLC/ExpressionTree.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index cf5792f..6289b09 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -2095,6 +2095,9 @@ ExprBase* CreateArrayAllocation(ExpressionContext &ctx, SynBase *source, TypeBas
 bool RestoreParentTypeScope(ExpressionContext &ctx, SynBase *source, TypeBase *parentType);
 ExprBase* CreateFunctionDefinition(ExpressionContext &ctx, SynBase *source, bool prototype, bool coroutine, TypeBase *parentType, bool accessor, TypeBase *returnType, bool isOperator, SynIdentifier *name, IntrusiveList<SynIdentifier> aliases, IntrusiveList<SynFunctionArgument> arguments, IntrusiveList<SynBase> expressions, FunctionData *genericProto, TypeFunction *instance, IntrusiveList<MatchData> matches);
 
+bool IsVirtualFunctionCall(ExpressionContext &ctx, FunctionData *function, TypeBase *type);
+ExprBase* GetFunctionTable(ExpressionContext &ctx, SynBase *source, FunctionData *function);
+
 FunctionValue GetFunctionForType(ExpressionContext &ctx, SynBase *source, ExprBase *value, TypeFunction *type)
 {
 	// Collect a set of available functions
@@ -2290,7 +2293,21 @@ ExprBase* CreateCast(ExpressionContext &ctx, SynBase *source, ExprBase *value, T
 			if(isType<TypeAutoRef>(function.context->type))
 				Stop(ctx, source, "ERROR: can't convert dynamic function set to '%.*s'", FMT_ISTR(type->name));
 
-			ExprBase *access = new (ctx.get<ExprFunctionAccess>()) ExprFunctionAccess(function.source, type, function.function, function.context);
+			ExprBase *access = NULL;
+
+			if(IsVirtualFunctionCall(ctx, function.function, function.context->type))
+			{
+				ExprBase *table = GetFunctionTable(ctx, source, function.function);
+
+				access = CreateFunctionCall2(ctx, source, InplaceStr("__redirect_ptr"), function.context, table, false, true, true);
+
+				if(!isType<TypeError>(access->type))
+					access = new (ctx.get<ExprTypeCast>()) ExprTypeCast(source, type, access, EXPR_CAST_REINTERPRET);
+			}
+			else
+			{
+				access = new (ctx.get<ExprFunctionAccess>()) ExprFunctionAccess(function.source, type, function.function, function.context);
+			}
 
 			if(isType<ExprFunctionDefinition>(value) || isType<ExprGenericFunctionPrototype>(value))
 				return CreateSequence(ctx, source, value, access);
-- 
2.43.0


From 333aaefb5459666399f15dd980ac5c478ee0672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:23 +0000
Subject: [PATCH 59/59] fix: breakpoints changed by the break function or hit
 inside calls corrupted the running code, a step at the final return patched
 memory after the code

---
 NULLC/Executor_RegVm.cpp | 105 ++++++++++++++++++++-------------------
 NULLC/Executor_RegVm.h   |  11 +++-
 NULLC/nullc.cpp          |   1 +
 3 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index d8db2ad..faf87ec 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -92,6 +92,9 @@ ExecutorRegVm::~ExecutorRegVm()
 
 	NULLC::dealloc(regFileArrayBase);
 
+	for(unsigned i = 0; i < breakCode.size(); i++)
+		NULLC::destruct(breakCode[i]);
+
 #if !defined(NULLC_NO_RAW_EXTERNAL_CALL)
 	if(dcCallVM)
 		dcFree(dcCallVM);
@@ -1287,6 +1290,12 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			return NULL;
 		}
 
+		const RegVmCmd breakCmd = breakCode[target]->original;
+
+		// This flag means that breakpoint works only once
+		if(cmd.rB == EXEC_BREAK_ONCE)
+			*instruction = breakCmd;
+
 		unsigned response = breakFunction(breakFunctionContext, unsigned(instruction - codeBase));
 		callStack.pop_back();
 
@@ -1301,52 +1310,42 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 		{
 			// Next instruction for step command
 			RegVmCmd *nextCommand = instruction + 1;
-			RegVmCmd& breakCmd = breakCode[target];
 
 			// Step command - handle unconditional jump step
 			if(breakCmd.code == rviJmp)
 				nextCommand = codeBase + breakCmd.argument;
 			// Step command - handle conditional "jump on false" step
-			if(breakCmd.code == rviJmpz && regFilePtr[cmd.rC].intValue == 0)
+			if(breakCmd.code == rviJmpz && regFilePtr[breakCmd.rC].intValue == 0)
 				nextCommand = codeBase + breakCmd.argument;
 			// Step command - handle conditional "jump on true" step
-			if(breakCmd.code == rviJmpnz && regFilePtr[cmd.rC].intValue != 0)
+			if(breakCmd.code == rviJmpnz && regFilePtr[breakCmd.rC].intValue != 0)
 				nextCommand = codeBase + breakCmd.argument;
-			// Step command - handle "return" step
-			if(breakCmd.code == rviReturn && callStack.size() != lastFinalReturn)
-				nextCommand = callStack.back();
+			// Step command - handle "return" step (there is nothing to step to when it ends the execution)
+			if(breakCmd.code == rviReturn)
+				nextCommand = !callStack.empty() ? callStack.back() : NULL;
 
 			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCall && exFunctions[breakCmd.argument].regVmAddress != -1)
 				nextCommand = codeBase + exFunctions[breakCmd.argument].regVmAddress;
-			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[cmd.rC].intValue && exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress != -1)
-				nextCommand = codeBase + exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress;
+			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[breakCmd.rC].intValue && exFunctions[regFilePtr[breakCmd.rC].intValue].regVmAddress != -1)
+				nextCommand = codeBase + exFunctions[regFilePtr[breakCmd.rC].intValue].regVmAddress;
 
-			if(response == NULLC_BREAK_STEP_OUT && callStack.size() != lastFinalReturn)
+			if(response == NULLC_BREAK_STEP_OUT && !callStack.empty())
 				nextCommand = callStack.back();
 
 			// If the next instruction is the breakpoint pseudo-command to return to regular code, place a one time breakpoint on its target
-			if(nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
+			if(nextCommand && nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
 				nextCommand = &exLinker->exRegVmCode[nextCommand->argument];
 
-			if(nextCommand->code != rviNop)
-			{
-				unsigned pos = breakCode.size();
-				breakCode.push_back(*nextCommand);
-				nextCommand->code = rviNop;
-				nextCommand->rB = EXEC_BREAK_ONCE;
-				nextCommand->argument = pos;
-			}
+			// A step that leads to the same instruction is handled when the execution returns to it
+			if(nextCommand && nextCommand->code != rviNop)
+				PlaceBreakpoint(unsigned(nextCommand - codeBase), true);
 		}
-		// This flag means that breakpoint works only once
-		if(cmd.rB == EXEC_BREAK_ONCE)
-		{
-			*instruction = breakCode[target];
 
-			return instruction;
-		}
+		// If the breakpoint is still there, jump to external code
+		if(instruction->code == rviNop)
+			return &breakCode[instruction->argument]->original;
 
-		// Jump to external code
-		return &breakCode[target];
+		return instruction;
 	}
 
 	return codeBase + cmd.argument;
@@ -1803,11 +1802,10 @@ unsigned ExecutorRegVm::GetCallStackAddress(unsigned frame)
 
 	RegVmCmd *instruction = callStack[frame];
 
-	if(instruction >= breakCode.data && instruction < breakCode.data + breakCode.count)
+	for(unsigned i = 0; i < breakCode.size(); i++)
 	{
-		assert(instruction->code == rviNop);
-
-		return instruction->argument;
+		if(instruction == &breakCode[i]->proceed)
+			return instruction->argument;
 	}
 
 	return unsigned(instruction - codeBase);
@@ -1837,11 +1835,34 @@ void ExecutorRegVm::ClearBreakpoints()
 		// nop instruction is used for breaks
 		// break structure: cmdOriginal, cmdNop
 		if(exLinker->exRegVmCode[i].code == rviNop)
-			exLinker->exRegVmCode[i] = breakCode[exLinker->exRegVmCode[i].argument];	// replace it with original instruction
+			exLinker->exRegVmCode[i] = breakCode[exLinker->exRegVmCode[i].argument]->original;	// replace it with original instruction
 	}
+
+	// Running code might return to one of the pseudo-instructions
+	if(codeRunning)
+		return;
+
+	for(unsigned i = 0; i < breakCode.size(); i++)
+		NULLC::destruct(breakCode[i]);
 	breakCode.clear();
 }
 
+void ExecutorRegVm::PlaceBreakpoint(unsigned instruction, bool oneHit)
+{
+	RegVmCmd &target = exLinker->exRegVmCode[instruction];
+
+	BreakCode *code = NULLC::construct<BreakCode>();
+
+	code->original = target;
+	code->proceed = RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1);
+
+	target.code = rviNop;
+	target.rB = oneHit ? EXEC_BREAK_ONCE : EXEC_BREAK_SIGNAL;
+	target.argument = breakCode.size();
+
+	breakCode.push_back(code);
+}
+
 bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 {
 	if(instruction >= exLinker->exRegVmCode.size())
@@ -1851,8 +1872,6 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	unsigned pos = breakCode.size();
-
 	if(exLinker->exRegVmCode[instruction].code == rviNop)
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: cannot set breakpoint on breakpoint");
@@ -1860,28 +1879,14 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	if(oneHit)
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_ONCE;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
-	else
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		breakCode.push_back(RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1));
+	PlaceBreakpoint(instruction, oneHit);
 
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_SIGNAL;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
 	return true;
 }
 
 bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 {
-	if(instruction > exLinker->exRegVmCode.size())
+	if(instruction >= exLinker->exRegVmCode.size())
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: break position out of code range");
 		execErrorMessage = execErrorBuffer;
@@ -1895,7 +1900,7 @@ bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 		return false;
 	}
 
-	exLinker->exRegVmCode[instruction] = breakCode[exLinker->exRegVmCode[instruction].argument];
+	exLinker->exRegVmCode[instruction] = breakCode[exLinker->exRegVmCode[instruction].argument]->original;
 	return true;
 }
 
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 4f9a28f..a6507e8 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -100,7 +100,16 @@ private:
 	void *breakFunctionContext;
 	unsigned (*breakFunction)(void*, unsigned);
 
-	FastVector<RegVmCmd>	breakCode;
+	// Original instruction and a pseudo-instruction that returns to the regular code after it. Memory is not moved or released while the code is running
+	struct BreakCode
+	{
+		RegVmCmd	original;
+		RegVmCmd	proceed;
+	};
+
+	FastVector<BreakCode*>	breakCode;
+
+	void PlaceBreakpoint(unsigned instruction, bool oneHit);
 
 	static RegVmReturnType RunCode(RegVmCmd *instruction, RegVmRegister * const regFilePtr, ExecutorRegVm *rvm, RegVmCmd *codeBase);
 
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 510e11e..1c51666 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -735,6 +735,7 @@ void nullcClean()
 	linker->CleanCode();
 
 	#ifdef NULLC_BUILD_X86_JIT
+	executorX86->ClearBreakpoints();
 	executorX86->ClearNative();
 	#endif
 
-- 
2.43.0

