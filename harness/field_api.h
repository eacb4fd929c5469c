// Prime- and backend-agnostic view of one generated field: a table of the public entry points.
// The adapter (field_adapter.cpp) fills it for the field it is compiled with.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <gmp.h>

enum Op2 { O_ADD, O_SUB, O_MUL, O_BAND, O_BOR, O_BXOR, O_SHL, O_SHR, O_EQ, O_NEQ, O_LT, O_GT, O_LEQ, O_GEQ,
           O_LAND, O_LOR, O_IDIV, O_MOD, O_DIV, O_POW, N_OP2 };
enum Op1 { U_NEG, U_SQUARE, U_BNOT, U_LNOT, U_COPY, U_TONORMAL, U_TOLONGNORMAL, U_TOMONTGOMERY, U_INV, N_OP1 };
static const char *const OP2_NAMES[] = {"add","sub","mul","band","bor","bxor","shl","shr","eq","neq","lt","gt","leq","geq",
           "land","lor","idiv","mod","div","pow"};
static const char *const OP1_NAMES[] = {"neg","square","bnot","lnot","copy","toNormal","toLongNormal","toMontgomery","inv"};

// raw (Montgomery-form) operations, uniform signature: r, a, b pointers to limb arrays
enum Raw2 { R_ADD, R_SUB, R_MMUL, N_RAW2 };
enum Raw1 { R_NEG, R_MSQUARE, R_TOMONT, R_FROMMONT, R_COPY, N_RAW1 };
static const char *const RAW2_NAMES[] = {"rawAdd","rawSub","rawMMul"};
static const char *const RAW1_NAMES[] = {"rawNeg","rawMSquare","rawToMontgomery","rawFromMontgomery","rawCopy"};
// class Raw<name> methods: element in, element out
enum RF2 { F_ADD, F_SUB, F_MUL, F_DIV, F_ADDV, F_SUBV, F_MULV, N_RF2 };
enum RF1 { F_NEG, F_SQUARE, F_INV, F_COPY, F_NEGV, F_SQUAREV, N_RF1 };
static const char *const RF2_NAMES[] = {"RawF.add","RawF.sub","RawF.mul","RawF.div","RawF.add(value)","RawF.sub(value)","RawF.mul(value)"};
static const char *const RF1_NAMES[] = {"RawF.neg","RawF.square","RawF.inv","RawF.copy","RawF.neg(value)","RawF.square(value)"};
// raw helpers that the portable and ARM64 headers also publish
enum RawX { X_AND, X_OR, X_XOR, X_SUBREG, N_RAWX };
static const char *const RAWX_NAMES[] = {"rawAnd","rawOr","rawXor","rawSubRegular"};

struct FieldApi {
    const char *backend;          // "asm", "gen", "arm"
    int n64, maxBits;
    int elementSize;              // sizeof(FrElement)
    void *qElem, *R2Elem, *R3Elem;   // published constants (FrElement)
    void (*op2[N_OP2])(void *r, void *a, void *b);
    void (*op1[N_OP1])(void *r, void *a);
    void (*copyn)(void *r, void *a, int n);
    int (*isTrue)(void *);
    int (*toInt)(void *);
    void (*str2element)(void *, const char *);
    char *(*element2str)(void *);
    void (*raw2[N_RAW2])(uint64_t *, const uint64_t *, const uint64_t *);
    void (*raw1[N_RAW1])(uint64_t *, const uint64_t *);
    void (*mmul1)(uint64_t *, const uint64_t *, uint64_t);
    void (*swap)(uint64_t *, uint64_t *);
    int (*isEq)(const uint64_t *, const uint64_t *);
    int (*isZero)(const uint64_t *);
    void (*rawShl)(uint64_t *, uint64_t *, uint64_t);
    void (*rawShr)(uint64_t *, uint64_t *, uint64_t);
    // RawF methods
    void (*rf2[N_RF2])(uint64_t *, const uint64_t *, const uint64_t *);
    void (*rf1[N_RF1])(uint64_t *, const uint64_t *);
    void (*rfSwap)(uint64_t *, uint64_t *);
    void (*rfMul1)(uint64_t *, const uint64_t *, uint64_t);
    int (*rfEq)(const uint64_t *, const uint64_t *);
    int (*rfIsZero)(const uint64_t *);
    void (*rfToMont)(uint64_t *, const uint64_t *);
    void (*rfFromMont)(uint64_t *, const uint64_t *);
    void (*rfExp)(uint64_t *, const uint64_t *, uint8_t *, unsigned);
    void (*rfSet)(uint64_t *, int);
    void (*rfSetV)(uint64_t *, int);
    void (*rfIntOp)(uint64_t *, int which, int a, const uint64_t *b);   // 0..2 add/sub/mul(int,E); 3..5 add/sub/mul(E,int)
    void (*rfFromUI)(uint64_t *, unsigned long);
    void (*rfFromString)(uint64_t *, const char *, uint32_t);
    void (*rfToString)(char *out, size_t cap, const uint64_t *, uint32_t);
    void (*rfToMpz)(mpz_t, const uint64_t *);
    void (*rfFromMpz)(uint64_t *, const mpz_t);
    int (*rfToBE)(const uint64_t *, uint8_t *, int);
    int (*rfFromBE)(uint64_t *, const uint8_t *, int);
    const uint64_t *(*rfConst)(int);   // 0 zero, 1 one, 2 negOne
    int (*rfBytes)();
    // helpers (null for the x86 assembly backend, whose header does not publish them)
    void (*rawx[N_RAWX])(uint64_t *, uint64_t *, uint64_t *);
    void (*rawNot)(uint64_t *, uint64_t *);
    int (*rawCmp)(uint64_t *, uint64_t *);
    void (*rawZero)(uint64_t *);
    void (*rawCopyS2L)(uint64_t *, int64_t);
    void (*rawAddLS)(uint64_t *, uint64_t *, uint64_t);
    void (*rawSubSL)(uint64_t *, uint64_t, uint64_t *);
    void (*rawSubLS)(uint64_t *, uint64_t *, uint64_t);
    void (*rawNegLS)(uint64_t *, uint64_t *, uint64_t);
};
extern "C" FieldApi *field_api();
