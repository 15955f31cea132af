/* Program start for 32-bit builds, where the C start-up files are missing. */
#include <stdlib.h>
int main(int argc, char **argv, char **env);
__attribute__((noreturn)) void port_go(int *sp) { exit(main(sp[0], (char **)(sp + 1), (char **)(sp + 2 + sp[0]))); }
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call port_go\n");
