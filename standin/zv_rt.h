// Allocation primitives of the analysis stand-ins for std::vector and std::string.
// They have no bodies: the analyser gives them their meaning (see models.py).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// a new block of `bytes` bytes that starts with the first `keep` bytes of `old`; `old` is released
void* zv_grow(void* old, std::size_t keep, std::size_t bytes) noexcept;
void zv_free(void* p) noexcept;
[[noreturn]] void zv_length_error();
[[noreturn]] void zv_out_of_range();
}
