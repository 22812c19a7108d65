// Core files of the running process.
#pragma once
#include <elf.h>
#include <unistd.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include "mc.h"
namespace vt {
// Writes the given (or all) memory as an ELF core; no allocation.
inline int write_core(const mc::range *extra, int nextra) {
	mc::range r[40]; int n = mc::image(r, 32); for (int i = 0; i < nextra; i++) r[n++] = extra[i];
	for (int i = 0; i < n; i++) for (int k = i + 1; k < n; k++) if (r[k].p < r[i].p) { mc::range t = r[i]; r[i] = r[k]; r[k] = t; }
	int fd = syscall(SYS_memfd_create, "core", 0); Elf64_Ehdr e; memset(&e, 0, sizeof e); memcpy(e.e_ident, ELFMAG, 4); e.e_ident[EI_CLASS] = ELFCLASS64; e.e_ident[EI_DATA] = ELFDATA2LSB; e.e_ident[EI_VERSION] = 1;
	e.e_type = ET_CORE; e.e_machine = EM_X86_64; e.e_version = 1; e.e_phoff = sizeof e; e.e_ehsize = sizeof e; e.e_phentsize = sizeof(Elf64_Phdr); e.e_phnum = n; size_t off = 8192;
	syscall(SYS_pwrite64, fd, &e, sizeof e, 0);
	for (int i = 0; i < n; i++) {
		Elf64_Phdr h; memset(&h, 0, sizeof h); uintptr_t lo = (uintptr_t) r[i].p & ~4095ul; size_t len = ((uintptr_t) r[i].p + r[i].n - lo + 4095) & ~4095ul;
		h.p_type = PT_LOAD; h.p_flags = PF_R | PF_W; h.p_offset = off; h.p_vaddr = lo; h.p_filesz = h.p_memsz = len; h.p_align = 4096; syscall(SYS_pwrite64, fd, &h, sizeof h, sizeof e + i * sizeof h); syscall(SYS_pwrite64, fd, (void *) lo, len, off); off += len;
	}
	return fd;
}
}
