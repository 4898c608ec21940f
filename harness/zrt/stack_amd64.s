#include "textflag.h"

// func StackLeft() uintptr
// what is left of the stack of the caller
TEXT ·StackLeft(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	LEAQ ret+0(FP), CX
	SUBQ (AX), CX
	MOVQ CX, ret+0(FP)
	RET
