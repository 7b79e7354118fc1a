// Emscripten's macros for a native build: console logging is dropped, EMSCRIPTEN_KEEPALIVE is nothing.
#pragma once
#define EM_ASM(...) ((void)0)
#define EM_ASM_(...) ((void)0)
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
