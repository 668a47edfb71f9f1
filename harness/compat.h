// Force-included in every instrumented translation unit: the prebuilt
// libLLVM/libMLIR are not ASan-instrumented, so the inline allocators in their
// headers must not poison memory that the uninstrumented side hands out.
#ifndef VF_COMPAT_H
#define VF_COMPAT_H
#include "llvm/Support/Compiler.h"
#undef LLVM_ADDRESS_SANITIZER_BUILD
#define LLVM_ADDRESS_SANITIZER_BUILD 0
#undef __asan_poison_memory_region
#define __asan_poison_memory_region(p, size)
#undef __asan_unpoison_memory_region
#define __asan_unpoison_memory_region(p, size)
#endif
