#pragma once
#include <cstdint>
#include <cstddef>
// implemented in the instrumented part
void step_print(int type, int ch, uint64_t bits, void* out);
// 0: atof, 1: from_string of the same text
long step_parse(int type, int ch, const void* text, size_t n, int how);
