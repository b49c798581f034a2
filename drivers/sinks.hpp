// Observation points for the analyser: bodiless, so never executed.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sink_bool(bool) noexcept;
void sink_i64(std::int64_t) noexcept;
void sink_u64(std::uint64_t) noexcept;
void sink_f64(double) noexcept;
void sink_f32(float) noexcept;
void sink_view(const void*, std::size_t) noexcept;
void sink_obj(const void*) noexcept;
}
