// Contract stand-in for LZ4 (see stub_compress.cpp).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#define LZ4_MAX_INPUT_SIZE 0x7E000000
#define LZ4_COMPRESSBOUND(n) ((unsigned)(n) > (unsigned)LZ4_MAX_INPUT_SIZE ? 0 : (n) + ((n) / 255) + 16)
int LZ4_compressBound(int inputSize);
int LZ4_compress_default(const char* src, char* dst, int srcSize, int dstCapacity);
int LZ4_compress_fast(const char* src, char* dst, int srcSize, int dstCapacity, int acceleration);
int LZ4_decompress_safe(const char* src, char* dst, int compressedSize, int dstCapacity);
#ifdef __cplusplus
}
#endif
