/* as <sys/auxv.h> has it on the BSDs */
int elf_aux_info(int, void *, int);
