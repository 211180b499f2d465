// Operation codes shared by the instrumentation pass and the runtime.
#pragma once
enum VsOp {
    VS_CONST = 0, VS_VAR, VS_XVAR,
    VS_ADD, VS_SUB, VS_MUL, VS_UDIV, VS_SDIV, VS_UREM, VS_SREM, VS_SHL, VS_LSHR, VS_ASHR, VS_AND, VS_OR, VS_XOR,
    VS_FADD, VS_FSUB, VS_FMUL, VS_FDIV, VS_FREM,
    VS_SMAX, VS_SMIN, VS_UMAX, VS_UMIN, VS_USUBSAT, VS_UADDSAT,
    VS_FMIN, VS_FMAX, VS_FCOPYSIGN, VS_FPOW, VS_FATAN2, VS_FHYPOT, VS_FMOD,
    VS_ICMP, VS_FCMP,
    VS_ZEXT, VS_SEXT, VS_TRUNC, VS_BITCAST, VS_FPTOSI, VS_FPTOUI, VS_SITOFP, VS_UITOFP, VS_FPEXT, VS_FPTRUNC,
    VS_FNEG, VS_FABS, VS_FSQRT, VS_FFLOOR, VS_FCEIL, VS_FTRUNC, VS_FROUND, VS_FRINT, VS_FSIN, VS_FCOS, VS_FTAN, VS_FASIN, VS_FACOS, VS_FATAN, VS_FEXP, VS_FLOG, VS_FLOG10,
    VS_BSWAP, VS_CTPOP, VS_CTLZ, VS_CTTZ, VS_ABS,
    VS_ITE, VS_EXTRACT, VS_CONCAT, VS_NOT, VS_FMA, VS_FMULADD, VS_FSHL, VS_FSHR, VS_TABLE,
    VS_OVF_UMUL, VS_OVF_SMUL, VS_OVF_UADD, VS_OVF_SADD, VS_OVF_USUB, VS_OVF_SSUB,
    VS_NOPS
};
