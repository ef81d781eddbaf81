// Bytecode the analyser interprets abstractly: a flat rendering of LLVM IR (vectors and aggregates are
// flattened into consecutive value slots), every instruction keeping its source position.
#pragma once
#include "dom.hpp"

enum BOp : u8 {
    B_BIN, B_ICMP, B_TRUNC, B_ZEXT, B_SEXT, B_BITCASTV, B_MOVE, B_SELECT, B_LOAD, B_STORE, B_GEP, B_ALLOCA, B_CALL,
    B_BR, B_CBR, B_SWITCH, B_RET, B_EXTELT, B_INSELT, B_SHUF, B_UNREACH, B_INTR, B_MEMCPY, B_MEMSET, B_PTRTOINT, B_INTTOPTR,
    B_ASM, B_UNSUP, B_EXTVAL, B_INSVAL, B_FENCE, B_ATOMIC
};
enum IOp : u16 {   // lane-wise or whole-vector intrinsics
    I_NONE, I_FSHL, I_FSHR, I_BSWAP, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTPOP, I_USUBSAT, I_UADDSAT, I_SSUBSAT, I_SADDSAT,
    I_REDADD, I_REDOR, I_REDAND, I_REDXOR, I_REDUMAX, I_UMULO, I_UADDO, I_USUBO, I_SADDO, I_SMULO, I_SSUBO, I_AESENC, I_AESENCLAST, I_AESKEYGEN, I_PSHUFB, I_PMADDWD, I_BITREVERSE,
    I_OBJSIZE, I_EXPECT, I_CTLZ, I_CTTZ, I_PMULHW, I_PMULHUW, I_PSLL, I_PSRL, I_PSRA
};
// operand: >=0 register slot of the frame, <0 constant-pool slot ~x
struct Ins {
    u8 op; u8 sub; u16 w;        // sub: arithmetic op / flags (1 = volatile); w: element width in bits
    u16 lanes; u16 w2;           // w2: second width
    int dst, a, b, c;
    u32 aux;                     // index into aux table / block / callee
    u32 loc;                     // index into location table
    u32 align;                   // memory alignment (bytes) | intrinsic id
    u32 aux2;
};
struct Loc { u32 file; u32 line; u32 func; };       // interned strings
struct GepInfo { i64 off; std::vector<std::pair<int, i64>> terms; };   // (operand, scale)
struct Edge { std::vector<std::pair<int, int>> copies; };              // parallel copies dst <- src
struct Block { u32 first, count; std::vector<u32> succ; std::string name; };
struct SwitchInfo { int cond; u16 w; u32 def; std::vector<std::pair<u64, u32>> cases; std::vector<u32> edgeIdx; };
struct CallInfo { int fn; std::string name; int fptr; std::vector<int> args; std::vector<u16> argW; std::vector<u16> argLanes; std::vector<u8> argPtr; u16 retW; u16 retLanes; bool retPtr; bool varArg; };
struct AllocaInfo { u64 size; u32 align; std::string name; u32 scopeFn; };
struct Func {
    std::string name; u32 nameId; bool decl; bool internal; int nregs; std::vector<int> argSlot; std::vector<u16> argW, argLanes; std::vector<u8> argPtr;
    u16 retW, retLanes; bool retPtr;
    std::vector<Block> blocks; std::vector<Ins> code; std::vector<int> ipdom;
    u32 file, line;
};
struct Global { std::string name; u64 size; bool isConst; bool decl; bool internal; u32 align; std::vector<Cell> init; std::vector<std::tuple<u64, int, i64, bool>> relocs; u32 line; std::string file; };  // relocs: offset -> (global index | function), addend
struct Module {
    std::vector<Func> funcs; std::vector<Global> globals;
    std::vector<V> pool;                                   // constants; PTR entries carry region = global index, fixed up by the interpreter
    std::vector<std::pair<u32, u8>> poolFix;               // pool entries to fix: kind 1 global pointer, 2 function pointer
    std::vector<std::string> strs; std::vector<Loc> locs;
    std::vector<GepInfo> geps; std::vector<Edge> edges; std::vector<SwitchInfo> switches; std::vector<CallInfo> calls; std::vector<AllocaInfo> allocas;
    std::vector<std::vector<int>> shufs;                   // shuffle masks
    std::map<std::string, int> fnByName;
    bool be; std::string path;
};
bool loadModule(const char *path, Module &m, std::string &err);
