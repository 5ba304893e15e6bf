// Calls a function with chosen values in all registers that the platform's
// calling convention preserves, and compares them after the return.
#ifndef REGS_H
#define REGS_H

void call_regs_asm (void *fn, const uintptr_t *args, const u64 *in, u64 *out);

#if defined(__x86_64__)
static const char *regs_checked = "rbx, rbp, r12-r15, DF, MXCSR, x87";
__asm__(
"	.text\n	.globl call_regs_asm\n	.type call_regs_asm,@function\n"
"call_regs_asm:\n"
"	push %rbx\n	push %rbp\n	push %r12\n	push %r13\n	push %r14\n	push %r15\n	push %rcx\n"
"	mov %rdi, %rax\n	mov %rsi, %r10\n"
"	mov 0(%rdx), %rbx\n	mov 8(%rdx), %rbp\n	mov 16(%rdx), %r12\n	mov 24(%rdx), %r13\n	mov 32(%rdx), %r14\n	mov 40(%rdx), %r15\n"
"	mov 0(%r10), %rdi\n	mov 8(%r10), %rsi\n	mov 16(%r10), %rdx\n	mov 24(%r10), %rcx\n	mov 32(%r10), %r8\n"
"	call *%rax\n"
"	mov (%rsp), %r10\n"
"	mov %rbx, 0(%r10)\n	mov %rbp, 8(%r10)\n	mov %r12, 16(%r10)\n	mov %r13, 24(%r10)\n	mov %r14, 32(%r10)\n	mov %r15, 40(%r10)\n"
"	pushfq\n	pop %rax\n	mov %rax, 48(%r10)\n	cld\n"
"	stmxcsr 56(%r10)\n	fnstenv 64(%r10)\n	fldenv 64(%r10)\n"
"	pop %rcx\n	pop %r15\n	pop %r14\n	pop %r13\n	pop %r12\n	pop %rbp\n	pop %rbx\n	ret\n"
"	.size call_regs_asm,.-call_regs_asm\n");
static const char *reg_names[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
#define NREGS 6
static const char *
regs_extra (const u64 *before, const u64 *after)
{
	(void) before;
	if (after[6] & 0x400) return "the direction flag";
	if (((u32) after[7] & 0xFFC0) != 0x1F80) return "the MXCSR control bits";
	if ((after[8] & 0xFFFF) != 0x37F) return "the x87 control word";
	if ((after[9] & 0xFFFF) != 0xFFFF) return "the x87 register stack (MMX state)";
	return NULL;
}

#elif defined(__i386__)
static const char *regs_checked = "ebx, esi, edi, ebp, DF, x87";
__asm__(
"	.text\n	.globl call_regs_asm\n	.type call_regs_asm,@function\n"
"call_regs_asm:\n"
"	push %ebx\n	push %esi\n	push %edi\n	push %ebp\n"	// args now at 20(%esp)
"	mov 20(%esp), %eax\n	mov 24(%esp), %ecx\n	mov 28(%esp), %edx\n"
"	sub $28, %esp\n"					// 16 + 4 + 28 = 48
"	mov 0(%ecx), %ebx\n	mov %ebx, 0(%esp)\n	mov 4(%ecx), %ebx\n	mov %ebx, 4(%esp)\n	mov 8(%ecx), %ebx\n	mov %ebx, 8(%esp)\n"
"	mov 12(%ecx), %ebx\n	mov %ebx, 12(%esp)\n	mov 16(%ecx), %ebx\n	mov %ebx, 16(%esp)\n"
"	mov 0(%edx), %ebx\n	mov 8(%edx), %esi\n	mov 16(%edx), %edi\n	mov 24(%edx), %ebp\n"
"	call *%eax\n"
"	mov 60(%esp), %ecx\n"
"	mov %ebx, 0(%ecx)\n	mov %esi, 8(%ecx)\n	mov %edi, 16(%ecx)\n	mov %ebp, 24(%ecx)\n"
"	pushf\n	pop %eax\n	mov %eax, 32(%ecx)\n	cld\n"
"	fnstenv 40(%ecx)\n	fldenv 40(%ecx)\n"
"	add $28, %esp\n	pop %ebp\n	pop %edi\n	pop %esi\n	pop %ebx\n	ret\n"
"	.size call_regs_asm,.-call_regs_asm\n");
static const char *reg_names[] = { "ebx", "esi", "edi", "ebp" };
#define NREGS 4
#define REGMASK 0xFFFFFFFFu
static const char *
regs_extra (const u64 *before, const u64 *after)
{
	(void) before;
	if (after[4] & 0x400) return "the direction flag";
	if ((after[5] & 0xFFFF) != 0x37F) return "the x87 control word";
	if ((after[6] & 0xFFFF) != 0xFFFF) return "the x87 register stack (MMX state)";
	return NULL;
}

#elif defined(__aarch64__)
static const char *regs_checked = "x19-x29, d8-d15";
__asm__(
"	.text\n	.globl call_regs_asm\n	.type call_regs_asm,%function\n"
"call_regs_asm:\n"
"	stp x29, x30, [sp, #-176]!\n	stp x19, x20, [sp, #16]\n	stp x21, x22, [sp, #32]\n	stp x23, x24, [sp, #48]\n	stp x25, x26, [sp, #64]\n	stp x27, x28, [sp, #80]\n"
"	stp d8, d9, [sp, #96]\n	stp d10, d11, [sp, #112]\n	stp d12, d13, [sp, #128]\n	stp d14, d15, [sp, #144]\n	str x3, [sp, #160]\n"
"	mov x9, x0\n	mov x10, x1\n	mov x11, x2\n"
"	ldp x19, x20, [x11]\n	ldp x21, x22, [x11, #16]\n	ldp x23, x24, [x11, #32]\n	ldp x25, x26, [x11, #48]\n	ldp x27, x28, [x11, #64]\n	ldr x29, [x11, #80]\n"
"	ldp d8, d9, [x11, #88]\n	ldp d10, d11, [x11, #104]\n	ldp d12, d13, [x11, #120]\n	ldp d14, d15, [x11, #136]\n"
"	ldp x0, x1, [x10]\n	ldp x2, x3, [x10, #16]\n	ldr x4, [x10, #32]\n"
"	blr x9\n"
"	ldr x11, [sp, #160]\n"
"	stp x19, x20, [x11]\n	stp x21, x22, [x11, #16]\n	stp x23, x24, [x11, #32]\n	stp x25, x26, [x11, #48]\n	stp x27, x28, [x11, #64]\n	str x29, [x11, #80]\n"
"	stp d8, d9, [x11, #88]\n	stp d10, d11, [x11, #104]\n	stp d12, d13, [x11, #120]\n	stp d14, d15, [x11, #136]\n"
"	ldp x19, x20, [sp, #16]\n	ldp x21, x22, [sp, #32]\n	ldp x23, x24, [sp, #48]\n	ldp x25, x26, [sp, #64]\n	ldp x27, x28, [sp, #80]\n"
"	ldp d8, d9, [sp, #96]\n	ldp d10, d11, [sp, #112]\n	ldp d12, d13, [sp, #128]\n	ldp d14, d15, [sp, #144]\n"
"	ldp x29, x30, [sp], #176\n	ret\n"
"	.size call_regs_asm,.-call_regs_asm\n");
static const char *reg_names[] = { "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15" };
#define NREGS 19
static const char *regs_extra (const u64 *b, const u64 *a) { (void) b; (void) a; return NULL; }

#elif defined(__arm__)
static const char *regs_checked = "r4-r11, d8-d15";
__asm__(
"	.text\n	.syntax unified\n	.arm\n	.globl call_regs_asm\n	.type call_regs_asm,%function\n	.align 2\n"
"call_regs_asm:\n"
"	push {r4-r11,lr}\n	vpush {d8-d15}\n	push {r3}\n	sub sp, sp, #8\n"
"	mov r12, r0\n	mov lr, r1\n"
"	vldmia r2!, {d8-d15}\n	ldm r2, {r4-r11}\n"
"	ldr r0, [lr, #16]\n	str r0, [sp]\n	ldm lr, {r0-r3}\n"
"	blx r12\n"
"	ldr r12, [sp, #8]\n"
"	vstmia r12!, {d8-d15}\n	stm r12, {r4-r11}\n"
"	add sp, sp, #12\n	vpop {d8-d15}\n	pop {r4-r11,pc}\n"
"	.size call_regs_asm,.-call_regs_asm\n"
#ifdef __thumb__
"	.thumb\n"
#endif
);
static const char *reg_names[] = { "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "r4/r5", "r6/r7", "r8/r9", "r10/r11" };
#define NREGS 12
static const char *regs_extra (const u64 *b, const u64 *a) { (void) b; (void) a; return NULL; }

#elif defined(__s390x__)
static const char *regs_checked = "r7-r13, f8-f15";
__asm__(
"	.text\n	.globl call_regs_asm\n	.type call_regs_asm,@function\n"
"call_regs_asm:\n"
"	stmg %r6,%r15,48(%r15)\n	lgr %r1,%r15\n	aghi %r15,-240\n	stg %r1,0(%r15)\n"
"	std %f8,160(%r15)\n	std %f9,168(%r15)\n	std %f10,176(%r15)\n	std %f11,184(%r15)\n	std %f12,192(%r15)\n	std %f13,200(%r15)\n	std %f14,208(%r15)\n	std %f15,216(%r15)\n"
"	stg %r5,224(%r15)\n	lgr %r1,%r2\n	lgr %r14,%r3\n"
"	ld %f8,56(%r4)\n	ld %f9,64(%r4)\n	ld %f10,72(%r4)\n	ld %f11,80(%r4)\n	ld %f12,88(%r4)\n	ld %f13,96(%r4)\n	ld %f14,104(%r4)\n	ld %f15,112(%r4)\n"
"	lmg %r7,%r13,0(%r4)\n"
"	lg %r2,0(%r14)\n	lg %r3,8(%r14)\n	lg %r4,16(%r14)\n	lg %r5,24(%r14)\n	lg %r6,32(%r14)\n"
"	basr %r14,%r1\n"
"	lg %r1,224(%r15)\n"
"	stmg %r7,%r13,0(%r1)\n"
"	std %f8,56(%r1)\n	std %f9,64(%r1)\n	std %f10,72(%r1)\n	std %f11,80(%r1)\n	std %f12,88(%r1)\n	std %f13,96(%r1)\n	std %f14,104(%r1)\n	std %f15,112(%r1)\n"
"	ld %f8,160(%r15)\n	ld %f9,168(%r15)\n	ld %f10,176(%r15)\n	ld %f11,184(%r15)\n	ld %f12,192(%r15)\n	ld %f13,200(%r15)\n	ld %f14,208(%r15)\n	ld %f15,216(%r15)\n"
"	aghi %r15,240\n	lmg %r6,%r15,48(%r15)\n	br %r14\n"
"	.size call_regs_asm,.-call_regs_asm\n");
static const char *reg_names[] = { "r7", "r8", "r9", "r10", "r11", "r12", "r13", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15" };
#define NREGS 15
static const char *regs_extra (const u64 *b, const u64 *a) { (void) b; (void) a; return NULL; }
#else
#error "unknown architecture"
#endif
#ifndef REGMASK
#define REGMASK 0xFFFFFFFFFFFFFFFFull
#endif

static const char *
call_regs (void *fn, u64 s, uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d, uintptr_t e)
{
	uintptr_t args[5] = { a, b, c, d, e };
	static u64 in[32], out[32];
	Rng r = { s };
	for (int i = 0; i < 32; i++) { in[i] = rnd(&r); out[i] = 0; }
	call_regs_asm(fn, args, in, out);
	for (int i = 0; i < NREGS; i++) {
		if ((in[i] ^ out[i]) & REGMASK) return reg_names[i];
	}
	return regs_extra(in, out);
}

// Leave unpredictable values in the scratch vector registers.
static __attribute__((noinline)) void
scramble_regs (int s)
{
	static __attribute__((aligned(64))) u64 v[128];
	Rng r = { (u64) s };
	for (int i = 0; i < 64; i++) v[i] = s % 3 == 0 ? 0xFFFFFFFFFFFFFFFFull : s % 3 == 1 ? 0 : rnd(&r);
#if defined(__x86_64__)
	if (__builtin_cpu_supports("avx2")) {
		__asm__ volatile (
			"vmovdqu 0(%0), %%ymm0\n\tvmovdqu 32(%0), %%ymm1\n\tvmovdqu 64(%0), %%ymm2\n\tvmovdqu 96(%0), %%ymm3\n\t"
			"vmovdqu 128(%0), %%ymm4\n\tvmovdqu 160(%0), %%ymm5\n\tvmovdqu 192(%0), %%ymm6\n\tvmovdqu 224(%0), %%ymm7\n\t"
			"vmovdqu 256(%0), %%ymm8\n\tvmovdqu 288(%0), %%ymm9\n\tvmovdqu 320(%0), %%ymm10\n\tvmovdqu 352(%0), %%ymm11\n\t"
			"vmovdqu 384(%0), %%ymm12\n\tvmovdqu 416(%0), %%ymm13\n\tvmovdqu 448(%0), %%ymm14\n\tvmovdqu 480(%0), %%ymm15\n\t"
			: : "r" (v) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "memory");
		return;
	}
	__asm__ volatile (
		"movdqu 0(%0), %%xmm0\n\tmovdqu 16(%0), %%xmm1\n\tmovdqu 32(%0), %%xmm2\n\tmovdqu 48(%0), %%xmm3\n\tmovdqu 64(%0), %%xmm4\n\tmovdqu 80(%0), %%xmm5\n\t"
		"movdqu 96(%0), %%xmm6\n\tmovdqu 112(%0), %%xmm7\n\tmovdqu 128(%0), %%xmm8\n\tmovdqu 144(%0), %%xmm9\n\tmovdqu 160(%0), %%xmm10\n\tmovdqu 176(%0), %%xmm11\n\t"
		"movdqu 192(%0), %%xmm12\n\tmovdqu 208(%0), %%xmm13\n\tmovdqu 224(%0), %%xmm14\n\tmovdqu 240(%0), %%xmm15\n\t"
		: : "r" (v) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "memory");
#elif defined(__aarch64__)
	u64 *p = v;
	__asm__ volatile (
		"ld1 {v0.16b-v3.16b}, [%0], #64\n\tld1 {v4.16b-v7.16b}, [%0], #64\n\tld1 {v16.16b-v19.16b}, [%0], #64\n\tld1 {v20.16b-v23.16b}, [%0], #64\n\t"
		"ld1 {v24.16b-v27.16b}, [%0], #64\n\tld1 {v28.16b-v31.16b}, [%0]\n\t"
		: "+r" (p) : : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29", "v30", "v31", "memory");
#elif defined(__arm__)
	u64 *p = v;
	__asm__ volatile (
		"vldmia %0!, {d0-d7}\n\tvldmia %0!, {d16-d31}\n\t"
		: "+r" (p) : : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d16", "d17", "d18", "d19", "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30", "d31", "memory");
#endif
}
#endif
